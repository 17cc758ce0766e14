"""C11 a broadcast is applied by every slave once and is never answered"""
from dst.kit import *

WHAT = ("broadcasts of every kind (valid, malformed, reading) through TCP, RTU and direct calls to 1-4 slaves of which some have no "
        "such block, fail in hooks or are replaced by new ones, while threads add and remove other slaves and read and write the data")
STALL = (0.2, 4)
RUNS = {"quick": 14000, "thorough": 350000}
STUBS = "raw TCP clients and raw RTU masters"
KEEP = ("blocks",)

EXCS = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "IndexError": IndexError,
        "ZeroDivisionError": ZeroDivisionError}


def gen(rng, tier):
    g = Gen(rng, rng.random() < 0.7)
    full = [["r", 3, 0, rng.randint(1, 6)], ["c", 1, 0, rng.randint(1, 10)]]
    slaves = []
    ids = rng.sample([1, 2, 3, 7, 100, 247, 255], 4)
    for i in range(rng.randint(1, 4)):
        r = rng.random()
        bl = full if r < 0.6 else ([["r", 3, 0, 1]] if r < 0.7 else [["i", 4, 0, 3]] if r < 0.85 else full[1:])
        slaves.append({"id": ids[i], "blocks": bl, "fail": None})
        r = rng.random()
        if r < 0.2:
            slaves[-1]["fail"] = [rng.choice(["modbus.Slave.handle_request", "modbus.Slave.on_handle_broadcast"]),
                                  rng.choice(sorted(EXCS) + ["ModbusError", "MissingKeyError", "ModbusInvalidRequestError"])]
    bcasts = []
    for _ in range(rng.choice([1, 1, 2])):
        reqs = []
        for _ in range(rng.randint(1, 4)):
            pdu = g.pdu(full, (5, 6, 15, 16, 22, 22) if rng.random() < 0.75 else FCS, 0.1, 8)
            if rng.random() < 0.15:
                pdu = g.malformed(pdu) or b"\x05"
            reqs.append(pdu.hex())
        bcasts.append({"via": rng.choice(["direct", "tcp", "tcp", "rtu"]), "reqs": reqs})
    if sum(1 for b in bcasts if b["via"] == "rtu") > 1:
        bcasts = bcasts[:1]
    others = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            s = rng.randrange(len(slaves))
            b = rng.choice(slaves[s]["blocks"])
            r = rng.random()
            if r < 0.4:
                ops.append(["get", s, b[0]])
            elif r < 0.8:
                ops.append(["set", s, b[0], [g.bit() if b[1] in (1, 2) else g.val() for _ in range(b[3])]])
            else:
                ops.append(["pdu", s, g.pdu(slaves[s]["blocks"], (3, 6, 16, 22, 1, 5, 15), 0, 8).hex()])
        others.append(ops)
    churn = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        churn.append([[rng.choice(["add", "add", "remove", "pause"]), rng.choice([20, 21, 22, 200])]
                      for _ in range(rng.randint(2, 10))])
    return {"unsigned": g.unsigned, "slaves": slaves, "bcasts": bcasts, "others": others, "churn": churn, "full": full,
            "swap": [rng.randrange(4), rng.randrange(4), rng.choice(["one", "one", "all", "none"])] if len(bcasts) == 1 and rng.random() < 0.3 else None,
            "slow": rng.choice([None, None, 0, 1, 20]), "missing": rng.random() < 0.5, "net": {"lat": 20 * US},
            "early": [[rng.randrange(4), i] for i in rng.sample([20, 21, 22, 200], rng.choice([0, 0, 1, 2, 3]))],
            "onerr": rng.choice(["", "", "", "once", "always"])}


def valid(plan):
    return len(plan["slaves"]) > 0


def run(k, w, plan):
    db = w.modbus.Databank(error_on_missing_slave=plan["missing"])
    vias = set(b["via"] for b in plan["bcasts"])
    slaves = []
    for i, spec in enumerate(plan["slaves"]):
        # the slaves which come and go are registered among the others
        for pos, sid in plan.get("early", ()):
            if pos == i:
                setup_slave(w, db, sid, plan["full"], plan["unsigned"])
        s = setup_slave(w, db, spec["id"], spec["blocks"], plan["unsigned"])
        slaves.append((spec, s, Layout(spec["blocks"], plan["unsigned"]), Hist(k)))
    servers = []
    if "tcp" in vias:
        servers.append(w.modbus_tcp.TcpServer(port=1502, databank=db))
    bus = None
    if "rtu" in vias:
        bus = Bus(k, 115200)
        servers.append(w.modbus_rtu.RtuServer(FakeSerial(bus.endpoint("srv"), 115200), databank=db))
    for s in servers:
        s.start()
    if servers:
        k.sleep(20 * MS)
    if "rtu" not in vias:
        stalling(k)            # a stalled RTU server loses frames which follow each other

    def make_fail(sid, excname):
        def hook(args):
            if args[0] is failing[sid]:
                if excname == "ModbusError":
                    k.fault("slave refuses in a hook")
                    raise w.modbus.ModbusError(4)
                k.fault("slave fails in a hook")
                if excname == "ModbusInvalidRequestError":
                    raise w.modbus.ModbusInvalidRequestError("injected")
                if excname == "MissingKeyError":
                    raise w.modbus.MissingKeyError("injected")
                raise EXCS[excname]("injected")
        return hook

    failing = {}
    for spec, s, lay, h in slaves:
        if spec["fail"]:
            failing[spec["id"]] = s
            w.hooks.install_hook(spec["fail"][0], make_fail(spec["id"], spec["fail"][1]))
    if plan["slow"] is not None:
        def slow(args):
            if plan["slow"]:
                k.sleep(plan["slow"] * 50 * US)
            else:
                k.point()
        w.hooks.install_hook("modbus.Slave.handle_request", slow)

    onerr = plan.get("onerr")
    if onerr:
        raised = [0]

        def on_error(args):
            raised[0] += 1
            if onerr == "always" or raised[0] == 1:
                k.fault("on_error hook raises")
                raise RuntimeError("injected")
        w.hooks.install_hook("modbus.Databank.on_error", on_error)

    def effect(spec, lay, pdu, bcast):
        """possible states after the request"""
        fail = spec["fail"]
        if fail and fail[0] == "modbus.Slave.handle_request":
            return lambda st: [st]

        def step(st):
            kind, resps, codes, new = lay.request(st, pdu)
            if new == st:
                return [st]
            if bcast and onerr:
                # a failing on_error hook may end the broadcast: here only its answers are judged
                return [st, new]
            if bcast and (kind == "bad" or pdu[0] == 23):
                # not a valid write request: it may be refused, but must not be done by halves
                return [st, new]
            return [new]
        return step

    def broadcaster(spec, n):
        via = spec["via"]
        cli = raw = None
        tid = [0]
        if via == "tcp":
            cli = RawClient(w.net, ("127.0.0.1", 1502))
            if not cli.connect():
                raise Violation("no connection", via)
        elif via == "rtu":
            raw = RtuRaw(bus, "m%d" % n)
        q = w.modbus_tcp.TcpQuery
        # a request to a unit of its own shows that the server has handled the broadcast before
        for j, hexpdu in enumerate(spec["reqs"]):
            pdu = bytes.fromhex(hexpdu)
            if plan.get("swap") and j and plan["swap"][0] == j and len(plan["bcasts"]) == 1:
                if plan["swap"][2] != "one":
                    swap_all(plan["swap"][2] == "all", via)
                else:
                    swap(plan["swap"][1] % len(slaves))
            ops = []
            for sp, s, lay, h in slaves:
                ops.append(h.begin("broadcast %s" % hexpdu))
            tid[0] += 1
            k.fault("broadcast")
            if via == "direct":
                frame = mbap(tid[0], 0, pdu)
                got, exc = call(db.handle_request, q(), frame)
                if exc is not None and not onerr:
                    raise exc
                if got:
                    raise Violation("broadcast answered", "%s -> %s" % (hexpdu, short(got)))
            elif via == "tcp":
                base = len(cli.rx)
                cli.send(mbap(tid[0], 0, pdu) + mbap(5000 + tid[0], 99, b"\x11"))
                cli.wait(lambda: cli.eof or cli.rst or split_mbap(cli.rx[base:])[0], 20 * SEC)
                frames, rest = split_mbap(cli.rx[base:])
                if not frames and not rest:
                    raise Violation("no answer after a broadcast", hexpdu)
                if rest or len(frames) != 1 or frames[0][0] != 5000 + tid[0]:
                    raise Violation("broadcast answered", "%s -> %s" % (hexpdu, short(cli.rx[base:])))
            else:
                k.sleep(10 * MS)
                mark = raw.mark()
                raw.send(rtu_frame(0, pdu))
                # long enough for all slow hooks
                k.sleep(10 * MS + (len(slaves) + 5) * 2 * MS)
                got = raw.since(mark)
                if got:
                    raise Violation("broadcast answered", "%s -> %s" % (hexpdu, short(got)))
                raw.send(rtu_frame(99, b"\x11"))
                got = raw.collect(mark, 5, 5 * SEC, 5 * MS)
                if not rtu_ok(got) or got[0] != 99:
                    raise Violation("no answer after a broadcast", "%s: %s" % (hexpdu, short(got)))
            for (sp, s, lay, h), op in zip(slaves, ops):
                h.end(op, (lambda st: [st]) if gone[0] else effect(sp, lay, pdu, True))

    retired = []

    gone = [False]

    def swap_all(again, via):
        """all slaves are removed at once, others take their ids or none"""
        db.remove_all_slaves()
        if not again:
            k.fault("all slaves removed")
            gone[0] = True
            if via != "direct":
                unit99[0] = db.add_slave(99)
            return
        retired.extend(slaves)
        k.fault("all slaves replaced")
        for i, (sp, old, lay, h) in enumerate(slaves):
            s = setup_slave(w, db, sp["id"], sp["blocks"], plan["unsigned"])
            if sp["fail"]:
                failing[sp["id"]] = s
            slaves[i] = (sp, s, lay, Hist(k))
        unit99[0] = db.add_slave(99)

    def swap(i):
        """another slave takes the id of slave i"""
        sp = slaves[i][0]
        retired.append(slaves[i])
        db.remove_slave(sp["id"])
        s = setup_slave(w, db, sp["id"], sp["blocks"], plan["unsigned"])
        if sp["fail"]:
            failing[sp["id"]] = s
        slaves[i] = (sp, s, slaves[i][2], Hist(k))
        k.fault("slave replaced")

    def other(ops):
        for o in ops:
            spec, s, lay, h = slaves[o[1]]
            if o[0] == "pdu":
                pdu = bytes.fromhex(o[2])
                op = h.begin("req %s" % o[2])
                resp, exc = call(s.handle_request, pdu)
                if exc is not None and not spec["fail"]:
                    raise exc
                if exc is not None:
                    h.end(op, lambda st: [st], " raises")
                elif spec["fail"]:
                    h.end(op, lambda st, lay=lay, pdu=pdu: lay.outcomes(st, pdu), " -> %s" % bytes(resp).hex())
                else:
                    h.end(op, lambda st, lay=lay, pdu=pdu, resp=bytes(resp): lay.accept(st, pdu, resp),
                          " -> %s" % bytes(resp).hex())
                continue
            b = [x for x in spec["blocks"] if x[0] == o[2]][0]
            if o[0] == "get":
                op = h.begin("get %s" % b[0])
                got = s.get_values(b[0], b[2], b[3])
                h.end(op, lambda st, got=got, b=b, lay=lay: [st] if lay.get_values(st, b[0], b[2], b[3]) == got else [],
                      " -> %s" % (got,))
            else:
                op = h.begin("set %s %s" % (b[0], o[3]))
                s.set_values(b[0], b[2], o[3])
                h.end(op, lambda st, b=b, v=o[3], lay=lay: [lay.set_values(st, b[0], b[2], v)[1]])

    def churner(ops):
        for what, sid in ops:
            if what == "pause":
                k.sleep(200 * US)
            elif what == "add":
                s, exc = call(db.add_slave, sid)
                if exc is None:
                    k.fault("slave added")
                    for b in plan["full"]:
                        silently(s.add_block, *b)
            else:
                _, exc = call(db.remove_slave, sid)
                if exc is None:
                    k.fault("slave removed")

    unit99 = [db.add_slave(99)]
    w.hooks.install_hook("modbus.Slave.handle_request",
                         lambda args: b"\x11\x99" if args[0] is unit99[0] and bytes(args[1]) == b"\x11" else None)
    tasks = [k.spawn(broadcaster, (b, i), "B%d" % i, harness=True) for i, b in enumerate(plan["bcasts"])]
    tasks += [k.spawn(other, (o,), "O%d" % i, harness=True) for i, o in enumerate(plan["others"])]
    tasks += [k.spawn(churner, (c,), "S%d" % i, harness=True) for i, c in enumerate(plan["churn"])]
    for t in tasks:
        k.join(t)
    for spec, s, lay, h in slaves + retired:
        op = h.begin("final")
        got = dump(s, spec["blocks"])
        h.end(op, lambda st, got=got: [st] if st == got else [], " = %s" % (got,))
        h.check(lay.initial(), "broadcast not applied exactly once")
