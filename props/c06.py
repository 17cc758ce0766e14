"""C06 a TCP server answers each request once, in order, in well-formed frames"""
from dst.kit import *

WHAT = ("1-3 raw TCP clients pipelining valid, malformed and unexecutable requests for present, absent and broadcast "
        "units to one TcpServer, over cut and delayed streams, with slow readers, small buffers and short writes")
STALL = (0.2, 4)
RUNS = {"quick": 3500, "thorough": 150000}


def gen(rng, tier):
    g = Gen(rng)
    blocks = g.blocks(minblocks=2)
    big = rng.random() < 0.12
    if big:
        blocks.append(rng.choice([["big", 3, 40000, 130], ["big", 3, 40000, 130], ["big", 1, 40000, 2010]]))
    slow = rng.random() < 0.35
    net = netcfg(rng)
    if slow or rng.random() < 0.2:
        net["cap"] = rng.choice([16, 64, 300, 2000])
        net["short_writes"] = rng.choice([0, 0.3, 0.8])
    elif rng.random() < 0.3:
        net["short_writes"] = rng.choice([0.2, 0.6])
    if big and net.get("cap", 999) < 300:
        net["cap"] = 300           # a client which accepts an answer in more than a second may be dropped
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        reqs = []
        for _ in range(rng.randint(1, 9)):
            pdu = g.pdu(blocks, FCS, 0.15, 125 if rng.random() < 0.3 else 12)
            r = rng.random()
            if big and r < 0.5:
                pdu = g.limit_pdu(blocks)
            elif r < 0.25:
                pdu = g.malformed(pdu)[:240]
            unit = rng.choice([1, 1, 1, 2, 2, 255, 0, 3, 77])
            reqs.append([rng.choice([0, 1, 0xFFFF, rng.randrange(65536)]), 0 if rng.random() < 0.93 else
                         rng.randrange(65536), unit, pdu.hex()])
        cl = {"reqs": reqs, "pipe": rng.choice([1, 1, 2, 100]), "gap": rng.choice([0, 0, 1, 30])}
        if slow and rng.random() < 0.7:
            cl["slow"] = [60 if big else rng.choice([1, 10, 60]), rng.choice([0, 1, 10])]
        if rng.random() < 0.12:
            cl["tail"] = rng.choice([
                mbap(9, 1, b"", length=0).hex(), mbap(9, 0, b"", length=0).hex(), mbap(9, 9, b"", length=0).hex(),
                mbap(9, 1, b"\x03\x00", length=40).hex(), "00", "000100000006", "0001000000060103"])
        clients.append(cl)
    return {"blocks": blocks, "clients": clients, "net": net, "missing": rng.random() < 0.5,
            "poison": rng.random() < 0.4, "hook": rng.choice(["", "", "raise", "sleep", "any"]),
            "exc": rng.choice(["RuntimeError", "MissingKeyError", "ModbusError", "KeyError", "OutOfModbusBlockError"]),
            "verbose": rng.random() < 0.3}


def run(k, w, plan):
    db = w.modbus.Databank(error_on_missing_slave=plan["missing"])
    server = w.modbus_tcp.TcpServer(port=1502, databank=db)
    units = (1, 2, 255)
    for u in units:
        s = setup_slave(w, server, u, plan["blocks"])
        if plan["poison"]:
            for b in plan["blocks"]:
                if b[1] in (3, 4):
                    s.set_values(b[0], b[2], 70000)      # cannot be sent: reading it fails
    server.set_verbose(plan["verbose"])
    tens = [0, 0]              # hooks which refused with code 10, answers with it
    if plan["hook"]:
        n = [0]
        bcast = [r[3] for c in plan["clients"] for r in c["reqs"] if r[2] == 0]

        def hook(args):
            n[0] += 1
            if plan["hook"] == "sleep":
                k.sleep(2 * MS)
            elif n[0] % 3 == 0:
                k.fault("hook raises")
                e = plan.get("exc", "RuntimeError")
                if e == "ModbusError":
                    if not args[1] or args[1].hex() in bcast:
                        return
                    # no other error has this code
                    tens[0] += 1
                    raise w.modbus.ModbusError(10)
                if e == "MissingKeyError":
                    # a hook which looks for a block that is not there
                    args[0].get_values("missing", 0)
                if e == "OutOfModbusBlockError":
                    args[0].get_values(plan["blocks"][0][0], 65000, 600)
                raise (KeyError if e == "KeyError" else RuntimeError)("injected")
        for name in ("modbus.Slave.handle_request",) if plan["hook"] == "any" else (
                "modbus.Slave.handle_read_holding_registers_request",
                "modbus.Slave.handle_write_multiple_registers_request",
                "modbus.Slave.handle_read_coils_request"):
            w.hooks.install_hook(name, hook)
    server.start()
    k.sleep(20 * MS)
    stalling(k)

    def client(i, spec):
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if not cli.connect(20 * SEC):
            raise Violation("no connection", "client %d" % i)
        cli.auto = "slow" not in spec
        want = []
        total = len([r for r in spec["reqs"] if r[2] in units])
        stop = [False]
        if not cli.auto:
            size, ms = spec["slow"]

            def reader():
                while not stop[0]:
                    if cli.end.rx.buf:
                        k.fault("slow reader")
                        cli.read_some(size)
                    k.sleep(max(ms * MS, 1 * MS))
            k.spawn(reader, (), "R%d" % i, harness=True)
        # one list entry for each request; answers are compared at the end
        sent = 0
        while sent < len(spec["reqs"]):
            chunk = spec["reqs"][sent:sent + spec["pipe"]]
            data = b""
            for tid, proto, unit, hexpdu in chunk:
                pdu = bytes.fromhex(hexpdu)
                data += mbap(tid, unit, pdu, proto)
                if unit in units:
                    want.append((tid, proto, unit, pdu))
            if not cli.send(data):
                raise Violation("connection closed by the server", "client %d while sending valid frames" % i)
            sent += len(chunk)
            if spec["pipe"] == 1 or spec["gap"]:
                need = len(want)
                if spec["pipe"] == 1:
                    cli.wait(lambda: len(split_mbap(cli.rx)[0]) >= minimum(want) or cli.eof or cli.rst, 30 * SEC)
                if spec["gap"]:
                    k.sleep(spec["gap"] * MS)
        ok = wait_frames(cli, minimum(want), 60 * SEC)
        if not ok and (cli.eof or cli.rst):
            raise Violation("connection closed by the server", "client %d: %s" % (i, describe(want, cli)))
        k.sleep(300 * MS)
        if not cli.auto:
            wait_drain(cli)
        check(i, want, cli, whole=True)
        if "tail" in spec:
            k.probe("ill-framed tail")
            base = len(cli.rx)
            cli.send(bytes.fromhex(spec["tail"]))
            k.sleep(3 * SEC)
            if not cli.auto:
                wait_drain(cli)
            frames, rest = split_mbap(cli.rx[base:])
            if rest:
                raise Violation("malformed answer", "to ill-framed bytes %s: %s" % (
                    spec["tail"], short(cli.rx[base:])))
            if frames:
                raise Violation("answer to ill-framed bytes", "%s: %r" % (spec["tail"], frames))
        stop[0] = True
        k.ops_done += len(spec["reqs"])

    def minimum(want):
        return len([x for x in want if x[3]])       # an empty pdu may be dropped

    def wait_frames(cli, n, timeout):
        end = k.now + timeout
        if not n:
            return True
        if cli.auto:
            cli.wait(lambda: len(split_mbap(cli.rx)[0]) >= n or cli.eof or cli.rst, timeout)
            return len(split_mbap(cli.rx)[0]) >= n
        while k.now < end:
            if len(split_mbap(cli.rx)[0]) >= n:
                return True
            if cli.eof or cli.rst:
                return False
            k.sleep(5 * MS)
        return False

    def wait_drain(cli):
        end = k.now + 60 * SEC
        while cli.end.rx.buf and k.now < end:
            k.sleep(5 * MS)

    def describe(want, cli):
        return "%d requests for answer, received %s" % (len(want), short(cli.rx, 300))

    def check(i, want, cli, whole):
        frames, rest = split_mbap(cli.rx)
        if rest:
            raise Violation("malformed answer", "client %d: bytes %s after %d frames; %s" % (
                i, short(rest), len(frames), describe(want, cli)))
        j = 0
        for f in frames:
            tid, proto, length, unit, pdu = f
            while j < len(want) and not match(want[j], f):
                if want[j][3]:
                    raise Violation("wrong answer frame", "client %d: request %s answered with %s" % (
                        i, want_str(want[j]), want_str((tid, proto, unit, pdu))))
                j += 1          # empty pdu: no answer is fine
            if j >= len(want):
                raise Violation("extra answer", "client %d: %s" % (i, want_str((tid, proto, unit, pdu))))
            j += 1
            tens[1] += len(pdu) == 2 and pdu[1] == 10 and pdu[0] >= 0x80
        left = [x for x in want[j:] if x[3]]
        if left:
            raise Violation("request not answered", "client %d: %s; %s" % (i, want_str(left[0]), describe(want, cli)))

    def match(wt, f):
        tid, proto, length, unit, pdu = f
        if (tid, proto, unit) != wt[:3] or len(pdu) < 2:
            return False
        if not wt[3]:
            return True
        fc = wt[3][0]
        if pdu[0] == fc and fc < 0x80:
            return True
        if fc in (15, 16, 23, 1, 2, 3, 4, 5, 6, 7, 22) and len(pdu) != 2 and pdu[0] != fc:
            return False
        return pdu[0] == (fc | 0x80) and len(pdu) == 2 and 1 <= pdu[1] <= 11

    def want_str(x):
        return "tid %d proto %d unit %d pdu %s" % (x[0], x[1], x[2], short(x[3], 60))

    ts = [k.spawn(client, (i, c), "C%d" % i, harness=True) for i, c in enumerate(plan["clients"])]
    for t in ts:
        k.join(t)
    if tens[0] != tens[1]:
        raise Violation("code of a refusing hook not sent", "%d requests refused with code 10, %d answers" % tuple(tens))
