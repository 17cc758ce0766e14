"""C07 a request that is refused or not answered changes nothing"""
from dst.kit import *

WHAT = ("1-3 clients (direct calls, raw TCP, raw RTU), each with a slave of its own, sending valid, truncated, lengthened "
        "and mutated requests of every function, with hooks raising before the data is written")
STALL = (0.2, 4)
RUNS = {"quick": 9000, "thorough": 300000}
KEEP = ("blocks",)

HOOKS = ["modbus.Slave.handle_request", "modbus.Server.before_handle_request", "modbus_tcp.TcpServer.after_recv",
         "modbus_rtu.RtuServer.after_read"] + ["modbus.Slave.handle_%s_request" % n for n in (
             "read_coils", "read_discrete_inputs", "read_holding_registers", "read_input_registers",
             "read_exception_status", "read_write_multiple_registers", "mask_write_register",
             "write_multiple_registers", "write_multiple_coils", "write_single_register", "write_single_coil")]


def gen(rng, tier):
    clients = []
    vias = rng.choice([["direct"], ["tcp"], ["rtu"], ["direct", "tcp"], ["tcp", "tcp"], ["tcp", "rtu"],
                       ["direct", "tcp", "rtu"], ["direct", "direct"]])
    for i, via in enumerate(vias):
        unsigned = rng.random() < 0.6
        g = Gen(rng, unsigned)
        blocks = g.blocks(maxsize=rng.choice([6, 12, 40]), minblocks=2, maxblocks=6)
        big = rng.random() < 0.15
        if big:
            t = rng.choice([1, 1, 2, 3, 3, 4])
            blocks = [["big", t, 10, 2100 if t < 3 else 140]] + [b for b in blocks if b[1] != t]
        reqs = []
        for _ in range(rng.randint(3, 14)):
            pdu = g.pdu(blocks, FCS, 0.2, rng.choice([4, 16, 40]))
            if big and rng.random() < 0.5:
                reqs.append([g.limit_pdu(blocks).hex(), 0])
                continue
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                pdu = g.malformed(pdu)
            reqs.append([pdu[:250].hex(), rng.choice([0] * 9 + [1])])
        init = []
        for b in blocks:
            init.append([g.bit() if b[1] in (1, 2) else g.val() for _ in range(b[3])])
            if b[1] in (3, 4) and rng.random() < 0.12:
                init[-1][rng.randrange(b[3])] = rng.choice([70000, -40000, 65536])
        clients.append({"via": via, "unsigned": unsigned, "blocks": blocks, "reqs": reqs, "init": init})
    hooks = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            hooks.append([rng.choice(HOOKS), rng.randint(1, 4), rng.choice(["RuntimeError", "ValueError", "KeyError"])])
    return {"clients": clients, "hooks": hooks, "net": netcfg(rng), "missing": rng.random() < 0.5}


def run(k, w, plan):
    db = w.modbus.Databank(error_on_missing_slave=plan["missing"])
    slaves = []
    for i, c in enumerate(plan["clients"]):
        s = setup_slave(w, db, i + 1, c["blocks"], c["unsigned"])
        for b, v in zip(c["blocks"], c["init"]):
            s.set_values(b[0], b[2], v)
        slaves.append(s)
    vias = [c["via"] for c in plan["clients"]]
    bus = None
    if "tcp" in vias:
        t = w.modbus_tcp.TcpServer(port=1502, databank=db)
        t.start()
    if "rtu" in vias:
        bus = Bus(k, 38400)
        r = w.modbus_rtu.RtuServer(FakeSerial(bus.endpoint("srv"), 38400), databank=db)
        r.start()
    k.sleep(20 * MS)
    stalling(k)

    def make_hook(every, exc):
        n = [0]

        def hook(args):
            n[0] += 1
            if n[0] % every == 0:
                k.fault("hook raises")
                raise {"RuntimeError": RuntimeError, "ValueError": ValueError, "KeyError": KeyError}[exc]("injected")
        return hook

    for name, every, exc in plan["hooks"]:
        w.hooks.install_hook(name, make_hook(every, exc))

    states = [None] * len(slaves)

    def client(i, c):
        slave = slaves[i]
        lay = Layout(c["blocks"], c["unsigned"])
        state = tuple(v for vals in c["init"] for v in vals)
        states[i] = state
        cli = [None]
        tid = [0]
        raw = RtuRaw(bus, "m") if c["via"] == "rtu" else None

        def send(unit, pdu):
            """response pdu or None"""
            if c["via"] == "direct":
                if unit != i + 1:
                    return None
                got, exc = call(slave.handle_request, pdu)
                return got if exc is None else None
            if c["via"] == "tcp":
                if cli[0] is None or cli[0].eof or cli[0].rst:
                    cli[0] = RawClient(w.net, ("127.0.0.1", 1502))
                    if not cli[0].connect(20 * SEC):
                        raise Violation("no connection", "client %d" % i)
                tid[0] += 1
                got = raw_request(k, cli[0], tid[0], unit, pdu, 4 * SEC)
                if got is None:
                    cli[0].close()
                    cli[0] = None
                return got
            k.sleep(10 * MS)
            mark = raw.mark()
            raw.send(rtu_frame(unit, pdu))
            got = raw.collect(mark, 4, 500 * MS, 15 * MS)
            if not got:
                return None
            if not rtu_ok(got) or got[0] != unit:
                raise Violation("bad RTU answer", got.hex())
            return got[1:-2]

        for hexpdu, wrong_unit in c["reqs"]:
            pdu = bytes.fromhex(hexpdu)
            if c["via"] == "rtu" and (not pdu or len(pdu) > 253):
                continue
            if wrong_unit:
                resp = send(99, pdu)
                what = "to unknown unit"
                want = [state]
                if resp is not None and len(resp) != 2:
                    raise Violation("unknown unit answered", "%s: %s" % (hexpdu, short(resp)))
            else:
                resp = send(i + 1, pdu)
                what = "answered with %s" % (short(resp) if resp is not None else "nothing")
                kind, resps, codes, new = lay.request(state, pdu)
                if resp is None or (len(resp) == 2 and resp[0] >= 0x80):
                    want = [state]          # refused
                    k.probe("refused")
                elif kind == "exc":
                    raise Violation("invalid request executed", "%s answered with %s" % (hexpdu, short(resp)))
                else:
                    want = lay.accept(state, pdu, resp)
                    if not want:
                        raise Violation("wrong answer", "%s (unit %d, %s) answered with %s, state %s" % (
                            hexpdu, i + 1, kind, short(resp), short(state, 400)))
                    k.probe("executed")
                if kind == "ok" and not plan["hooks"] and all(-32768 <= v <= 65535 for v in state):
                    if resp is None:
                        raise Violation("valid request not answered", hexpdu)
                    if len(resp) == 2 and resp[0] >= 0x80:
                        raise Violation("valid request refused", "%s with %s" % (hexpdu, short(resp)))
            got = dump(slave, c["blocks"])
            if got not in want:
                raise Violation("refused request changed data" if want == [state] else "wrong effect",
                                "%s %s: %s -> %s, expected %s" % (hexpdu, what, short(state, 500), short(got, 500),
                                                                 short(want, 500)))
            state = got
            states[i] = state
            k.ops_done += 1

    ts = [k.spawn(client, (i, c), "C%d" % i, harness=True) for i, c in enumerate(plan["clients"])]
    for t in ts:
        k.join(t)
    for i, c in enumerate(plan["clients"]):
        got = dump(slaves[i], c["blocks"])
        if states[i] is not None and got != states[i]:
            raise Violation("other slave changed", "unit %d: %s instead of %s" % (i + 1, got, states[i]))
