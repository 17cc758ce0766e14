"""C01 operations on a slave's data are atomic and linearizable"""
from dst.kit import *

WHAT = ("2-4 threads of set_values/get_values and Modbus requests of every function on one small slave, "
        "called directly and through TCP/RTU servers sharing its databank, with hooks that yield in the middle")
STALL = (0.2, 5)
RUNS = {"quick": 16000, "thorough": 400000}
KEEP = ("blocks",)


def gen(rng, tier):
    unsigned = rng.random() < 0.7
    g = Gen(rng, unsigned)
    mode = rng.random()
    if mode < 0.4:
        blocks = [["r", 3, 0, rng.randint(2, 5)]]
        fcs = (3, 6, 16, 22, 23)
    elif mode < 0.6:
        blocks = [["c", 1, 0, rng.randint(3, 12)]]
        fcs = (1, 5, 15)
    else:
        blocks = [["r", 3, 0, rng.randint(2, 4)], ["c", 1, 0, rng.randint(2, 9)], ["i", 4, 0, 3], ["d", 2, 0, 3]]
        fcs = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)
    big = rng.random() < 0.05
    if big:
        # blocks larger than any internal chunk; few operations, on most of the block
        blocks = [rng.choice([["r", 3, 0, rng.randint(70, 300)], ["c", 1, 0, rng.randint(100, 1200)]])]
        fcs = (3, 16, 16, 23) if blocks[0][1] == 3 else (1, 15)
    rng.shuffle(blocks)
    remote = rng.random() < 0.25
    threads = []
    nthreads = rng.randint(2, 4)
    total = rng.randint(4, 6 if big else 11)
    for t in range(nthreads):
        via = "local"
        if remote and rng.random() < 0.6:
            via = rng.choice(["tcp0", "tcp1", "rtu", "master"])
            if via in ("rtu", "master") and any(x["via"] == via for x in threads):
                via = "tcp0"
        ops = []
        for _ in range(max(1, total // nthreads)):
            if via == "local" and rng.random() < 0.5:
                b = rng.choice(blocks)
                n = rng.choice([b[3], rng.randint(1, b[3])])
                if big and rng.random() < 0.7:
                    n = b[3]
                a = b[2] + rng.randint(0, b[3] - n)
                if rng.random() < 0.06:
                    # partly or wholly outside of the block
                    a = rng.choice([b[2] - 1, b[2] + b[3] - n + 1, b[2] + b[3], b[2] + b[3] + 5])
                if rng.random() < 0.5:
                    ops.append(["get", b[0], a, n])
                else:
                    vals = [g.bit() if b[1] in (1, 2) else g.val() for _ in range(n)]
                    if big:
                        # one value throughout: a mixture is visible anywhere
                        vals = [vals[0]] * n
                    ops.append(["set", b[0], a, vals if rng.random() < 0.85 or n > 1 else vals[0],
                                rng.random() < 0.3])
            elif ops and ops[-1][0] == "pdu" and rng.random() < 0.25:
                ops.append(list(ops[-1]))
            else:
                ops.append(["pdu", (g.big_pdu(blocks, fcs) if big and rng.random() < 0.8
                                    else g.pdu(blocks, fcs, 0.03, 12)).hex()])
        threads.append({"via": via, "ops": ops})
    hooks = []
    if rng.random() < 0.4:
        names = ["modbus.Slave.handle_request", "modbus.ModbusBlock.setitem",
                 "modbus.Slave.handle_write_multiple_registers_request",
                 "modbus.Slave.handle_write_multiple_coils_request",
                 "modbus.Slave.handle_mask_write_register_request",
                 "modbus.Slave.handle_read_write_multiple_registers_request",
                 "modbus.Slave.handle_read_holding_registers_request"]
        for _ in range(rng.randint(1, 2)):
            hooks.append([rng.choice(names), rng.choice([0, 0, 1, 3])])
    return {"unsigned": unsigned, "blocks": blocks, "threads": threads, "hooks": hooks,
            "net": {"lat": 20 * US}, "late": rng.random() < 0.5,
            "same_tid": rng.random() < 0.3}


def run(k, w, plan):
    blocks = plan["blocks"]
    lay = Layout(blocks, plan["unsigned"])
    vias = set(t["via"] for t in plan["threads"])
    servers = []
    db = w.modbus.Databank()
    # the servers share the databank whether or not it is empty when they are created
    late = plan.get("late")
    if not late:
        slave = setup_slave(w, db, 1, blocks, plan["unsigned"])
    if "tcp0" in vias or "master" in vias:
        servers.append(w.modbus_tcp.TcpServer(port=1502, databank=db))
    if "tcp1" in vias:
        servers.append(w.modbus_tcp.TcpServer(port=1503, databank=db))
    bus = None
    if "rtu" in vias:
        bus = Bus(k, 115200)
        ser = FakeSerial(bus.endpoint("srv"), 115200)
        servers.append(w.modbus_rtu.RtuServer(ser, databank=db))
    if late:
        slave = setup_slave(w, db, 1, blocks, plan["unsigned"])
    for s in servers:
        s.start()
    if servers:
        k.sleep(5 * MS)
    stalling(k)

    def make_hook(delay):
        def hook(args):
            k.probe("hook in the middle")
            if delay:
                k.sleep(delay * 100 * US)
            else:
                k.point()
        return hook

    for name, delay in plan["hooks"]:
        w.hooks.install_hook(name, make_hook(delay))
    hist = Hist(k)

    def do_pdu(transport, pdu):
        op = hist.begin("req %s" % pdu.hex())
        resp = transport(pdu)
        if resp is None:
            # no answer seen: it may have happened or not
            op.step = lambda st: lay.outcomes(st, pdu)
            k.probe("no answer")
            return
        resp = bytes(resp)
        hist.end(op, lambda st: lay.accept(st, pdu, resp), " -> %s" % resp.hex())

    def body(spec):
        via = spec["via"]
        transport = slave.handle_request
        if via in ("tcp0", "tcp1"):
            cli = RawClient(w.net, ("127.0.0.1", 1502 if via == "tcp0" else 1503))
            if not cli.connect():
                raise Violation("no connection", via)
            tid = [0]

            def transport(pdu):
                # each request is sent after the answer to the previous one: the ids may be all the same
                tid[0] += not plan.get("same_tid")
                return raw_request(k, cli, tid[0], 1, pdu, 20 * SEC)
        elif via == "rtu":
            raw = RtuRaw(bus, "m")

            def transport(pdu):
                k.sleep(10 * MS)
                mark = raw.mark()
                raw.send(rtu_frame(1, pdu))
                got = raw.collect(mark, 5, 20 * SEC, 10 * MS)
                if not got:
                    return None
                if not rtu_ok(got) or got[0] != 1:
                    raise Violation("bad RTU answer", got.hex())
                return got[1:-2]
        elif via == "master":
            m = w.modbus_tcp.TcpMaster("127.0.0.1", 1502, 20.0)

            def transport(pdu):
                try:
                    got = m.execute(1, 0, 0, pdu=pdu, returns_raw=True)
                except w.modbus.ModbusError as exc:
                    return bytes((pdu[0] | 0x80, exc.get_exception_code()))
                return pdu[:1] + bytes(got)
        for op_ in spec["ops"]:
            if op_[0] == "pdu":
                do_pdu(transport, bytes.fromhex(op_[1]))
            elif op_[0] == "get":
                _, name, a, n = op_
                op = hist.begin("get %s %d %d" % (name, a, n))
                got, exc = call(slave.get_values, name, a, n)
                if exc is not None:
                    got = ename(exc)
                hist.end(op, lambda st, got=got, a=a, n=n, name=name:
                         [st] if lay.get_values(st, name, a, n) == got else [], " -> %s" % (got,))
            else:
                _, name, a, vals, tup = op_
                op = hist.begin("set %s %d %s" % (name, a, vals))
                v = tuple(vals) if tup and isinstance(vals, list) else vals
                exc = call(slave.set_values, name, a, v)[1]
                err = ename(exc) if exc is not None else None

                def step(st, a=a, vals=vals, name=name, err=err):
                    want, st = lay.set_values(st, name, a, vals)
                    return [st] if want == err else []
                hist.end(op, step, " -> %s" % err if err else "")

    tasks = [k.spawn(body, (t,), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    for t in tasks:
        k.join(t)
    for b in blocks:
        op = hist.begin("final %s" % b[0])
        got = slave.get_values(b[0], b[2], b[3])
        hist.end(op, lambda st, got=got, b=b: [st] if lay.get_values(st, b[0], b[2], b[3]) == got else [],
                 " = %s" % (got,))
    hist.check(lay.initial(), "not linearizable")
