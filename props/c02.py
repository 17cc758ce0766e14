"""C02 results do not depend on how the transport cuts, merges or delays bytes"""
import struct

from dst.kit import *

WHAT = ("1-3 threads each using one slave through TcpMaster + TcpServer, RtuMaster + RtuServer (with local echo, software "
        "timeout, chunking adapters), RtuOverTcpMaster or a reference slave, over byte streams cut, merged and delayed below "
        "the timeouts; every function, option and error code compared with a reference slave")
STALL = (0.2, 3)
RUNS = {"quick": 16000, "thorough": 400000}
KEEP = ("blocks", "args", "out", "subs", "mode")
STUBS = "reference slave behind RtuOverTcpMaster (the repository has no RTU over TCP server) and for functions 8, 17, 20, 43"

HOOKS = ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv", "modbus.Slave.handle_request",
         "modbus.Slave.on_handle_broadcast", "modbus.Server.before_handle_request", "modbus.Server.after_handle_request",
         "modbus.ModbusBlock.setitem", "modbus_tcp.TcpMaster.before_send", "modbus_tcp.TcpMaster.after_recv",
         "modbus_tcp.TcpServer.after_recv", "modbus_tcp.TcpServer.before_send", "modbus_rtu.RtuMaster.before_send",
         "modbus_rtu.RtuMaster.after_recv", "modbus_rtu.RtuServer.after_read", "modbus_rtu.RtuServer.before_write",
         "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"]


def gen_op(rng, blocks, g, kind):
    """execute() arguments and the request they stand for"""
    fcs = [1, 2, 3, 3, 4, 5, 6, 7, 15, 16, 16, 22, 23]
    if kind in ("tcpref", "rturef", "rtuotcp"):
        fcs += [8, 20, 43, 17, 9]
    fc = rng.choice(fcs)
    op = {"fc": fc}
    wild = 0.1
    big = rng.random() < 0.15
    mx = 2100 if big else 20
    if fc in (1, 2, 3, 4):
        typ = READ_TYPES[fc]
        a, n = g.span(blocks, (typ,), mx, wild)
        if rng.random() < 0.08:
            n = rng.choice([125, 126, 127]) if fc > 2 else rng.choice([1999, 2000, 2001])
        if rng.random() < 0.03:
            n = 0
        op["args"] = [a, n]
        op["pdu"] = p_read(fc, a, n).hex()
        if fc > 2 and n and rng.random() < 0.25:
            op["fmt"] = rng.choice([">%dh" % n, ">%dB" % (2 * n)] + ([">%di" % (n // 2), ">%df" % (n // 2)]
                                                                    if n % 2 == 0 else []))
        if fc < 3 and rng.random() < 0.1:
            op["fmt"] = ">" + "B" * ((n + 7) // 8)
    elif fc == 5:
        a, _ = g.span(blocks, (COILS,), 1, wild)
        v = rng.choice([0, 1, 1, 255, 0xFF00, -1])
        op["args"], op["out"] = [a], v
        op["pdu"] = p_w1(5, a, 0xFF00 if v else 0).hex()
    elif fc == 6:
        a, _ = g.span(blocks, (HOLDING,), 1, wild)
        v = rng.choice([0, 1, 0x7FFF, 0x8000, 0xFFFF, -1, -0x8000, rng.randrange(65536)])
        op["args"], op["out"] = [a], v
        op["pdu"] = p_w1(6, a, v).hex()
        if rng.random() < 0.3:
            op["fmt"] = ">Hh"
    elif fc == 7:
        op["args"] = [0]
        op["pdu"] = "07"
    elif fc == 15:
        a, n = g.span(blocks, (COILS,), mx, wild)
        n = min(n, 1968)
        bits = [rng.choice([0, 1]) for _ in range(n)]
        op["args"], op["out"] = [a], bits
        if rng.random() < 0.2:
            # every value above 0 switches on
            op["out"] = [rng.choice([1, True, 2, 255, 256, 0xFF00]) if b else rng.choice([0, False]) for b in bits]
        op["pdu"] = p_wcoils(a, bits).hex()
        if rng.random() < 0.15:
            op["fmt"] = ">HBB"
    elif fc == 16:
        a, n = g.span(blocks, (HOLDING,), mx, wild)
        n = min(n, rng.choice([122, 123, 123, 124]))
        op["args"] = [a]
        if rng.random() < 0.3 and n >= 2:
            n -= n % 2
            fmt = rng.choice([">%df" % (n // 2), ">%di" % (n // 2), ">%dh" % n, ">%dI" % (n // 2)])
            cnt = int(fmt[1:-1])
            vals = [{"f": rng.choice([0.0, 1.5, -2.25, 1e10]), "i": rng.randrange(-2 ** 31, 2 ** 31),
                     "h": rng.randrange(-2 ** 15, 2 ** 15), "I": rng.randrange(2 ** 32)}[fmt[-1]] for _ in range(cnt)]
            op["fmt"], op["out"] = fmt, vals
            regs = struct.unpack(">%dH" % n, struct.pack(fmt, *vals))
        else:
            vals = [rng.choice([0, 1, 0x7FFF, 0x8000, 0xFFFF, -1, -0x8000, rng.randrange(65536)]) for _ in range(n)]
            op["out"] = vals
            regs = vals
        op["pdu"] = p_wregs(a, regs).hex()
    elif fc == 22:
        a, _ = g.span(blocks, (HOLDING,), 1, wild)
        if rng.random() < 0.15:
            op["fmt"] = ">hHh"
        x, y = rng.choice([0, 0xFFFF, 0xFF00, rng.randrange(65536)]), rng.randrange(65536)
        op["args"], op["and"], op["or"] = [a], x, y
        op["pdu"] = p_mask(a, x, y).hex()
    elif fc == 23:
        a, n = g.span(blocks, (HOLDING,), mx, wild)
        a2, n2 = g.span(blocks, (HOLDING,), 20 if rng.random() < 0.7 else 121, wild)
        large = [b for b in blocks if b[1] == HOLDING and b[3] >= 121]
        if large and rng.random() < 0.3:
            b = rng.choice(large)
            a2, n2 = b[2] + rng.randint(0, b[3] - 121), 121
        if rng.random() < 0.1:
            n = rng.choice([125, 126])
        n = min(n, 126)
        vals = [rng.choice([0, 0x7FFF, 0x8000, 0xFFFF, -1, rng.randrange(65536)]) for _ in range(n2)]
        op["args"], op["out"], op["wa"] = [a, n], vals, a2
        op["pdu"] = p_rw(a, n, a2, vals).hex()
        if rng.random() < 0.2:
            op["fmt"] = ">%dh" % n
    elif fc == 8:
        # the longest PDU has 253 bytes
        data = [rng.randrange(256) for _ in range(rng.choice([2, 2, 2, 4, 4, 100, 249, 250]))]
        sub = rng.choice([0, 0, 1, 10])
        op["args"], op["out"] = [sub], data
        op["pdu"] = struct.pack(">BH", 8, sub).hex() + bytes(data).hex()
        if rng.random() < 0.3:
            op["fmt"] = ">" + "B" * (2 + len(data))
    elif fc == 20:
        subs = [[rng.randrange(1, 9), rng.randrange(100), rng.choice([0, 1, 2, 5, 20])] for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.1:
            # the longest answer: 245 bytes
            subs = [[3, 7, rng.choice([115, 121])]] + ([] if rng.random() < 0.5 else [[4, 9, 0]])
        op["args"], op["subs"] = [], subs
        op["pdu"] = (bytes((20, 7 * len(subs))) + b"".join(struct.pack(">BHHH", 6, *s) for s in subs)).hex()
    elif fc == 43:
        op["args"], op["out"] = [0], [rng.choice([1, 2, 3, 4]), rng.randrange(8)]
        op["pdu"] = bytes([43, 14] + op["out"]).hex()
    elif fc == 17:                  # through RAW
        op["args"], op["pdu"] = [0], "11"
    else:                           # a function that the slave refuses, through RAW
        op["args"], op["pdu"] = [0], "63"
    if rng.random() < 0.12:
        op["raw"] = 1
    if fc not in (17, 9) and rng.random() < 0.06:
        op["via_raw"] = 1
    if op.get("via_raw") or fc in (17, 9):
        op["raw"] = 1
        op.pop("fmt", None)
    return op


def gen(rng, tier):
    threads = []
    for t in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["tcp", "tcp", "tcp", "rtu", "rtu", "rtuotcp", "rtuotcp", "tcpref", "rturef"])
        unsigned = rng.random() < 0.6
        g = Gen(rng, unsigned)
        blocks = g.blocks()
        if rng.random() < 0.15:
            blocks.append(["big", rng.choice([1, 3]), 3000, rng.choice([130, 2100])])
        th = {"kind": kind, "unsigned": unsigned, "blocks": blocks, "unit": rng.choice([1, 1, 2, 17, 247, 255]),
              "server": rng.choice([0, 0, 1]), "verbose": rng.random() < 0.1,
              "ops": [gen_op(rng, blocks, g, kind) for _ in range(rng.randint(1, 14 if kind.startswith("tcp") else 9))],
              "gap": rng.choice([0, 0, 1, 30]), "close": rng.random() < 0.1}
        if kind in ("rtu", "rturef"):
            th["baud"] = rng.choice([9600, 19200, 38400, 115200])
            th["echo"] = rng.random() < 0.25
            th["sw"] = rng.random() < 0.25
            th["noto"] = not th["sw"] and rng.random() < 0.15       # no timeout at all
            th["ctor"] = 0 if th["sw"] else rng.choice([0, 0, 0, 0, 0, 1, 2])
            th["mode"] = [rng.choice(["posix", "gap"]), rng.choice(["posix", "gap"])]
            th["latency"] = rng.choice([0, 0, 0, 1, 4, 16])
            th["line"] = rng.choice([0, 0, 0.5, 1.0])       # gaps between characters, in characters
            th["late"] = rng.choice([2, 10, 200, 1200])
        if kind in ("rtuotcp", "tcpref"):
            th["late"] = rng.choice([0, 0, 20, 200, 1200])
        threads.append(th)
    return {"threads": threads, "net": netcfg(rng, 0.15), "hooks": rng.random() < 0.1, "clock": clockcfg(rng),
            "seed": rng.randrange(1 << 30)}


class Reference(object):
    """reference slave; state is updated by `answer`"""

    def __init__(self, layout):
        self.lay = layout
        self.state = layout.initial()

    def answer(self, pdu, first=True):
        """(response or None if more than one is allowed, allowed responses, allowed codes)"""
        fc = pdu[0]
        if fc == 8:
            r = pdu
        elif fc == 17:
            r = bytes((17, 5)) + b"\x2a\xffabc"
        elif fc == 99:
            return None, (), (1,)
        elif fc == 20:
            out = b""
            for i in range(2, len(pdu), 7):
                _, f, rec, n = struct.unpack(">BHHH", pdu[i:i + 7])
                out += bytes((2 * n + 1, 6)) + b"".join(struct.pack(">H", (f * 4099 + (rec + j) * 257 + 7) & 0xFFFF)
                                                       for j in range(n))
            r = bytes((20, len(out))) + out
        elif fc == 43:
            body = bytes((14, pdu[2], 1, 0, 0, 2))
            for i in range(2):
                s = bytes((0x61 + (pdu[3] + j + i) % 26) for j in range(pdu[3] * 5 + 3))
                body += bytes((i, len(s))) + s
            r = bytes((43,)) + body
        else:
            kind, resps, codes, new = self.lay.request(self.state, pdu)
            if kind == "ok":
                self.state = new
                return None, resps, ()
            return None, (), codes
        return None, (r,), ()


def decode(op, resp):
    """python result of an answer"""
    fc = op["fc"]
    if op.get("raw"):
        return bytes(resp[2:]) if fc in (1, 2, 3, 4, 20, 23) and not op.get("via_raw") else bytes(resp[1:])
    if fc in (1, 2):
        return unpack_bits(resp[2:], op["args"][1])
    if fc in (3, 4, 23):
        return struct.unpack(op.get("fmt") or ">%dH" % op["args"][1], resp[2:])
    if fc in (5, 6):
        return struct.unpack(op.get("fmt") or ">HH", resp[1:])
    if fc == 7:
        return (resp[1],)
    if fc in (15, 16):
        # the format of function 16 is that of the values
        return struct.unpack(fc == 15 and op.get("fmt") or ">HH", resp[1:5])
    if fc == 22:
        return struct.unpack(op.get("fmt") or ">HHH", resp[1:7])
    if fc == 8:
        return struct.unpack(op.get("fmt") or ">H%dB" % (len(resp) - 3), resp[1:])
    if fc == 43:
        return tuple(resp[1:])
    if fc == 20:
        out, pos = [], 2
        for f, rec, n in op["subs"]:
            out.append(struct.unpack(">%dH" % n, resp[pos + 2:pos + 2 + 2 * n]))
            pos += 2 + 2 * n
        return tuple(out)
    raise AssertionError(fc)


def run(k, w, plan):
    run_clock(k, plan["clock"])
    if plan["hooks"]:
        for h in HOOKS:
            w.hooks.install_hook(h, lambda args: None)
    servers = {}
    ths = plan["threads"]
    finals = []
    used = {}
    for i, th in enumerate(ths):
        th = dict(th)
        unit = th["unit"]
        lay = Layout(th["blocks"], th["unsigned"])
        ref = Reference(lay)
        slave = None
        kind = th["kind"]
        if kind == "tcp":
            sid = th["server"]
            if sid not in servers:
                servers[sid] = w.modbus_tcp.TcpServer(port=1502 + sid)
                servers[sid].set_verbose(th["verbose"])
                servers[sid].start()
            while (sid, unit) in used:
                unit = unit % 247 + 1
            used[sid, unit] = 1
            slave = setup_slave(w, servers[sid], unit, th["blocks"], th["unsigned"])
            m = w.modbus_tcp.TcpMaster("127.0.0.1", 1502 + sid, 5.0)
        elif kind in ("rtu", "rturef"):
            unit = unit if unit < 248 else 1
            bus = Bus(k, th["baud"])
            if th["line"]:
                seq = [0]

                def mangle(src, data, bus=bus, th=th, seq=seq):
                    out = []
                    for b in data:
                        seq[0] += 1
                        f = (seq[0] * 2654435761 + plan["seed"]) >> 7 & 7
                        out.append((int(bus.char * th["line"] * f / 7), b))
                    return out
                bus.mangle = mangle
            ep = bus.endpoint("m")
            ep.echo = th["echo"]
            ep.latency = th["latency"] * MS
            mser = FakeSerial(ep, th["baud"], mode=th["mode"][0])
            t0 = 11.0 / th["baud"] if th["baud"] <= 19200 else 0.0005
            # the timeouts by set_timeout or by the arguments of the constructors
            if th.get("ctor") == 1:
                m = w.modbus_rtu.RtuMaster(mser, interframe_multiplier=2.0 / t0)
            elif th.get("ctor") == 2:
                m = w.modbus_rtu.RtuMaster(mser, 0.01, 20.0, 0.1)
            else:
                m = w.modbus_rtu.RtuMaster(mser)
                m.set_timeout(2.0, th["sw"])
            m.handle_local_echo = th["echo"]
            if kind == "rtu":
                ep2 = bus.endpoint("s")
                ep2.latency = th["latency"] * MS
                gap = 4 * max(th["latency"] / 1000.0, bus.char / 1e9) if th["latency"] or th["line"] else 3.5 * t0
                if th.get("ctor"):
                    srv = w.modbus_rtu.RtuServer(FakeSerial(ep2, th["baud"], mode=th["mode"][1]),
                                                 interframe_multiplier=gap / t0)
                else:
                    srv = w.modbus_rtu.RtuServer(FakeSerial(ep2, th["baud"], mode=th["mode"][1]))
                    if th["latency"] or th["line"]:
                        srv.set_timeout(gap)
                srv.set_verbose(th["verbose"])
                slave = setup_slave(w, srv, unit, th["blocks"], th["unsigned"])
                srv.start()
            else:
                stub = Stub(k, None, bus=bus)
        else:
            port = 1600 + i
            stub = Stub(k, None, w.net, port, "rtu" if kind == "rtuotcp" else "tcp")
            stub.up()
            cls = w.modbus_rtu_over_tcp.RtuOverTcpMaster if kind == "rtuotcp" else w.modbus_tcp.TcpMaster
            m = cls("127.0.0.1", port, 2.0)
        if slave is None:
            served = Reference(lay)

            def respond(link, frame, served=served, th=th, stub=stub):
                rtu = stub.framing == "rtu"
                if rtu and not rtu_ok(frame):
                    k.fail("damaged request", frame.hex())
                    return
                pdu = frame[1:-2] if rtu else frame[7:]
                # the specification leaves no choice
                if pdu != th["cur"][1]:
                    k.fail("wrong request on the wire", "%s instead of %s" % (short(pdu), short(th["cur"][1])))
                _, resps, codes = served.answer(pdu)
                resp = resps[0] if resps else bytes((pdu[0] | 0x80, codes[0]))
                out = rtu_frame(frame[0], resp) if rtu else mbap(int.from_bytes(frame[:2], "big"), frame[6], resp)
                link.send(out, th["late"] * MS)
            stub.respond = respond
            th["cur"] = [None, None]
            if stub.framing == "rtu":
                stub.req_len = lambda buf, th=th: th["cur"][0]
        m.set_verbose(th["verbose"])
        finals.append((th, unit, lay, ref, slave, m))

    def body(th, unit, lay, ref, slave, m):
        for n, op in enumerate(th["ops"]):
            if th["gap"]:
                k.sleep(th["gap"] * MS)
            if th["close"] and n % 3 == 2:
                m.close()
            fc = op["fc"]
            pdu = bytes.fromhex(op["pdu"])
            if "cur" in th:
                th["cur"][0] = len(pdu) + 3
                th["cur"][1] = pdu
            kw = {}
            if op.get("raw"):
                kw["returns_raw"] = True
            if op.get("fmt"):
                kw["data_format"] = op["fmt"]
            if "out" in op:
                kw["output_value"] = op["out"]
            _, resps, codes = ref.answer(pdu)
            if th.get("noto"):
                m.set_timeout(2.0)
            if op.get("via_raw") or fc in (17, 9):
                res = call(m.execute, unit, 0, 0, pdu=pdu, returns_raw=True)
            elif fc == 20:
                f, r, q = zip(*op["subs"])
                res = call(m.execute, unit, 20, tuple(r), tuple(q), number_file=tuple(f), **kw)
            else:
                if th.get("noto"):
                    # the master waits until it has the length it expects: that of a normal answer
                    m.set_timeout(None if codes == () and fc != 43 and (fc != 8 or op["out"]) else 2.0)
                if fc == 22:
                    kw["and_mask"], kw["or_mask"] = op["and"], op["or"]
                if fc == 23:
                    kw["write_starting_address_fc23"] = op["wa"]
                res = call(m.execute, unit, fc, *op["args"], **kw)
            k.ops_done += 1
            what = "%s unit %d%s, request %s" % (th["kind"], unit, "" if th["unsigned"] else " signed", short(pdu, 60))
            val, exc = res
            if exc is not None:
                if "ModbusError" in errname(w, exc) and exc.get_exception_code() in (codes or ()):
                    k.probe("exception answers")
                    continue
                raise Violation("wrong result", "%s: raised %s: %s; expected %s" % (
                    what, ename(exc), exc, "code %s" % (codes,) if codes else short([decode(op, r) for r in resps], 300)))
            if codes:
                raise Violation("wrong result", "%s: returned %s; expected code %s" % (what, short(val), codes))
            got = bytes(val) if op.get("raw") else tuple(val)
            want = [decode(op, r) for r in resps]
            if got not in want and not any(str(got) == str(x) for x in want):       # nan
                raise Violation("wrong result", "%s: returned %s; expected %s" % (what, short(got, 300), short(want, 300)))
            k.probe("normal answers")

    k.sleep(SEC)
    stalling(k)
    tasks = [k.spawn(body, f, "T%d" % i, harness=True) for i, f in enumerate(finals)]
    for t in tasks:
        k.join(t)
    for th, unit, lay, ref, slave, m in finals:
        if slave is not None:
            got = dump(slave, th["blocks"])
            if got != ref.state:
                bad = [(b[0], j + b[2], got[lay.by_name[b[0]][4] + j], ref.state[lay.by_name[b[0]][4] + j])
                       for b in th["blocks"] for j in range(b[3])
                       if got[lay.by_name[b[0]][4] + j] != ref.state[lay.by_name[b[0]][4] + j]]
                raise Violation("wrong contents", "unit %d (block, address, actual, expected): %s" % (unit, short(bad, 300)))
