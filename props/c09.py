"""C09 servers can be stopped and restarted at any moment"""
from dst.kit import *

WHAT = ("TCP, RTU and composite servers with traffic (whole, pipelined, partial, stalled requests, resets) and slow hooks are "
        "stopped at random instants, by 1-2 threads, also twice or without having run, and restarted 1-4 times; starts fail "
        "because the port is taken or the device is missing and are retried")
STALL = (0.2, 5)
RUNS = {"quick": 6000, "thorough": 250000}
STUBS = "raw TCP clients and a raw RTU device"
KEEP = ("blocks",)

PORT = 1502


def gen(rng, tier):
    g = Gen(rng)
    kind = rng.choice(["tcp", "tcp", "rtu", "rtu", "comp", "comp"])
    blocks = [["r", 3, 0, 8], ["c", 1, 0, 8]]
    cycles = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        run_us = rng.choice([0, 0, 100, 1000, 20000, 100000, 300000, 1500000])
        run_us += rng.randrange(0, max(1, run_us + 200))
        stops = [[rng.choice([0, 0, 0, 10, 300, 5000])] for _ in range(rng.choice([1, 1, 1, 2]))]
        c = {"run": run_us, "stops": [s[0] for s in stops], "twice": rng.random() < 0.3, "verify": rng.random() < 0.5,
             "fail": None}
        if rng.random() < 0.25:
            c["fail"] = rng.choice({"tcp": ["busy"], "rtu": ["missing", "open"], "comp": ["busy", "missing", "open"]}[kind])
            c["nfail"] = rng.choice([1, 1, 2, 3])
            c["stopfail"] = rng.choice([None, None, 0, 200])
        cycles.append(c)
    clients = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        acts = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.6:
                acts.append(["req", [g.pdu(blocks, (1, 3, 5, 6, 15, 16, 22, 23), 0.1, 6).hex()
                                     for _ in range(rng.choice([1, 1, 1, 3, 10]))]])
            elif r < 0.8:
                f = mbap(rng.randrange(65536), 1, g.pdu(blocks, (6, 16, 3), 0, 6))
                acts.append(["part", f[:rng.randint(1, len(f) - 1)].hex()])
            elif r < 0.9:
                acts.append([rng.choice(["close", "abort", "half"])])
            else:
                acts.append(["junk", bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))).hex()])
            if rng.random() < 0.5:
                acts.append(["sleep", rng.choice([100, 3000, 50000, 400000])])
        clients.append({"tr": "rtu" if kind == "rtu" or (kind == "comp" and rng.random() < 0.5) else "tcp", "acts": acts,
                        "gap": rng.choice([0, 200, 5000, 60000])})
    if sum(1 for c in clients if c["tr"] == "rtu") > 1:
        seen = False
        for c in clients:
            if c["tr"] == "rtu":
                if seen and kind == "comp":
                    c["tr"] = "tcp"
                seen = True
        if kind == "rtu":
            clients = clients[:1]
    net = netcfg(rng)
    slow = rng.choice([0, 0, 0, 2, 30, 200])
    if rng.random() < 0.025:
        # a hook that takes longer than any patience stop could have
        slow = rng.choice([6500, 12000, 35000])
        cycles = cycles[:1]
        cycles[0].update({"fail": None, "run": rng.choice([20000, 300000, 2000000])})
        clients = clients[:2]
        for c in clients:
            c["acts"].insert(0, ["req", [p_read(3, 0, 2).hex()]])
    return {"kind": kind, "blocks": blocks, "prestop": rng.choice([0, 0, 0, 1, 2]), "cycles": cycles, "clients": clients,
            "slow": slow, "slowexit": rng.choice([0, 0, 0, 1, 20, 200]), "opened": rng.random() < 0.5, "mode": rng.choice(["posix", "gap"]),
            "baud": rng.choice([9600, 19200, 115200]), "net": net, "verbose": rng.random() < 0.1,
            "slowcancel": rng.choice([0, 0, 0, 0, 7, 40, 700])}


def valid(plan):
    return len(plan["cycles"]) > 0


def run(k, w, plan):
    kind = plan["kind"]
    db = w.modbus.Databank()
    tcp, rtu = kind in ("tcp", "comp"), kind in ("rtu", "comp")
    bus = ser = None
    if rtu:
        bus = Bus(k, plan["baud"])
        ser = FakeSerial(bus.endpoint("srv"), plan["baud"], mode=plan["mode"], opened=plan["opened"])
        ser.cancel_slow = plan.get("slowcancel", 0) * MS
    if kind == "tcp":
        server = w.modbus_tcp.TcpServer(port=PORT, databank=db)
    elif kind == "rtu":
        server = w.modbus_rtu.RtuServer(ser, databank=db)
    else:
        server = w.simulator.CompositeServer([w.modbus_rtu.RtuServer, w.modbus_tcp.TcpServer], [(ser,), (PORT,)], databank=db)
    slave = setup_slave(w, server, 1, plan["blocks"])
    server.set_verbose(plan["verbose"])
    slave.set_values("r", 0, list(range(100, 108)))
    st = {"stopped": True, "active": 0, "served": 0, "exc": 0, "expect": False}

    def before(args):
        st["active"] += 1
        st["served"] += 1
        if st["stopped"]:
            raise Violation("request handled after stop", "request %s" % short(args[1]))
        if plan["slow"]:
            k.sleep(plan["slow"] * MS)

    def after(args):
        st["active"] -= 1

    def on_exc(args):
        st["exc"] += 1
        if not st["expect"]:
            raise Violation("server thread failed", "%r" % (args[1],))

    w.hooks.install_hook("modbus.Server.before_handle_request", before)
    w.hooks.install_hook("modbus.Server.after_handle_request", after)
    w.hooks.install_hook("modbus.Server.on_exception", on_exc)

    flags = {"on": False, "end": False, "stopping": 0}
    # the time a stop may take: select period, every client in the middle of something, slow hooks
    # clients stop sending 1 s after the call
    limit = 4 * SEC + len(plan["clients"]) * (2500 * MS) + (12 * plan["slow"] + 4 * plan["slowexit"] + 8 * plan.get("slowcancel", 0)) * MS
    raws = []

    def chaos(spec):
        cli = None
        raw = None
        if spec["tr"] == "rtu":
            raw = RtuRaw(bus, "m")
            raws.append(raw)
        tid = 0
        while not flags["end"]:
            if not flags["on"]:
                k.sleep(5 * MS)
                continue
            for a in spec["acts"]:
                if flags["end"] or not flags["on"] or flags["stopping"] and k.now > flags["stopping"] + 1 * SEC:
                    break
                if a[0] == "sleep":
                    k.sleep(a[1] * US)
                    continue
                if raw is not None:
                    data = b""
                    if a[0] == "req":
                        for p in a[1][:3]:
                            raw.send(rtu_frame(1, bytes.fromhex(p)))
                            k.sleep(20 * MS)
                    elif a[0] in ("part", "junk"):
                        raw.send(bytes.fromhex(a[1])[-6:])
                    k.sleep(5 * MS)
                    continue
                if cli is None or cli.eof or cli.rst or cli.end.closed:
                    if cli is not None:
                        cli.close()
                    cli = RawClient(w.net, ("127.0.0.1", PORT))
                    if not cli.connect(500 * MS):
                        cli = None
                        k.sleep(20 * MS)
                        continue
                if a[0] == "req":
                    data = b""
                    for p in a[1]:
                        tid = (tid + 1) & 0xFFFF
                        data += mbap(tid, 1, bytes.fromhex(p))
                    cli.send(data)
                    base = len(cli.rx)
                    n = len(a[1]) if tid % 4 else 1
                    cli.wait(lambda: cli.eof or cli.rst or len(split_mbap(cli.rx[base:])[0]) >= n, (500 if spec["gap"] else 200) * MS)
                elif a[0] in ("part", "junk"):
                    cli.send(bytes.fromhex(a[1]))
                    k.sleep(20 * MS)
                    k.fault("partial request")
                elif a[0] == "close":
                    cli.close()
                elif a[0] == "half":
                    cli.half_close()
                    k.sleep(5 * MS)
                    cli.close()
                else:
                    cli.abort()
                    k.fault("client reset")
            k.sleep(max(15 * MS, spec["gap"] * US))
        if cli is not None:
            cli.close()

    chs = [k.spawn(chaos, (c,), "C%d" % i, harness=True) for i, c in enumerate(plan["clients"])]

    def stop(what):
        if not flags["stopping"]:
            flags["stopping"] = k.now
        d = Deadline(k, what, limit, "stop did not return")
        _, exc = call(server.stop)
        d.end()
        if exc is not None:
            raise Violation("stop raised", "%s: %r" % (what, exc))

    def slow_exit(args):
        if plan["slowexit"]:
            k.sleep(plan["slowexit"] * MS)

    for name in ("before_close", "after_close"):
        w.hooks.install_hook("modbus_rtu.RtuServer." + name, slow_exit)

    def check_stopped(what):
        if st["active"]:
            raise Violation("request in progress after stop", what)
        socks = w.net.open_sockets()
        if socks:
            raise Violation("sockets held after stop", "%s: %s" % (what, socks))
        if tcp and w.net.find_listener(("127.0.0.1", PORT)) is not None:
            raise Violation("port held after stop", what)
        if ser is not None and ser.is_open:
            raise Violation("serial port open after stop", what)

    def stopper(delay, what, twice):
        if delay:
            k.sleep(delay * US)
        stop(what)
        check_stopped(what)
        if twice:
            stop(what + " again")
            check_stopped(what + " again")

    def verify(cn):
        """the server works and the values are the right ones"""
        flags["on"] = False
        k.sleep(3 * SEC)
        while True:
            n = st["served"]           # requests still in the buffers
            k.sleep(2 * SEC + plan["slow"] * MS)
            if st["served"] == n and not st["active"]:
                break
        cur = dump(slave, plan["blocks"])[:8]
        pdu = p_read(3, 0, 8)
        want = b"\x03\x10" + b"".join(v.to_bytes(2, "big") for v in cur)
        if tcp:
            cli = RawClient(w.net, ("127.0.0.1", PORT))
            resp = None
            if cli.connect(3 * SEC):
                resp = raw_request(k, cli, 7, 1, pdu, 5 * SEC + plan["slow"] * MS)
            cli.close()
            if resp != want:
                raise Violation("not serving after start", "cycle %d, TCP: %s instead of %s" % (cn, short(resp), short(want)))
        if rtu:
            raw = raws[0] if raws else RtuRaw(bus, "v")
            if not raws:
                raws.append(raw)
            mark = raw.mark()
            raw.send(rtu_frame(1, pdu))
            got = raw.collect(mark, 5 + 16, 2 * SEC + plan["slow"] * MS)
            if not rtu_ok(got) or got[1:-2] != want:
                raise Violation("not serving after start", "cycle %d, RTU: %s instead of %s" % (cn, short(got), short(want)))
        flags["on"] = True

    def start(what):
        _, exc = call(server.start)
        if exc is not None:
            raise Violation("start raised", "%s: %r" % (what, exc))

    stalling(k)
    for i in range(plan["prestop"]):
        stop("stop %d before start" % i)
    if plan["prestop"]:
        k.probe("stopped before start")

    for cn, c in enumerate(plan["cycles"]):
        what = "cycle %d" % cn
        for nf in range(c.get("nfail", 0) if c["fail"] else 0):
            # a start which must fail
            st["expect"] = True
            n0 = st["exc"]
            lst = None
            ep = ser._ep if ser is not None else None
            if c["fail"] == "busy":
                lst = w.net.listen_raw(PORT, lambda end: end.close())
                k.fault("port in use")
            elif c["fail"] == "missing" and not ser.is_open:
                ep.unplug()
            elif c["fail"] == "open" and not ser.is_open:
                ser.faults["open"] = [1]
            else:
                st["expect"] = False
                break
            st["stopped"] = False
            start(what + " failing")
            if c["stopfail"] is not None:
                k.sleep(c["stopfail"] * US)
                stop(what + " during failing start")
            k.sleep(1 * SEC)
            if kind == "comp":
                stop(what + " after failed start")
            st["stopped"] = True
            if st["exc"] == n0 and c["stopfail"] is None:
                raise Violation("failed start not reported", "%s %s" % (what, c["fail"]))
            if lst is not None:
                w.net.unlisten(lst)
            if c["fail"] == "missing":
                ep.plug()
            if ser is not None:
                ser.faults.pop("open", None)
            check_stopped(what + " after failed start")
            st["expect"] = False
            k.probe("failed starts")
        flags["stopping"] = 0
        st["stopped"] = False
        flags["on"] = True
        start(what)
        if c["run"]:
            k.sleep(c["run"] * US)
        if c["verify"]:
            verify(cn)
            if c["run"]:
                k.sleep(c["run"] * US)
        flags["stopping"] = k.now
        if st["active"]:
            k.probe("stopped while handling a request")
        ss = [k.spawn(stopper, (d, what + " stop by thread %d" % i, c["twice"]), "S%d" % i, harness=True)
              for i, d in enumerate(c["stops"])]
        for s in ss:
            k.join(s)
        st["stopped"] = True
        flags["stopping"] = 0
        check_stopped(what)
        values = dump(slave, plan["blocks"])
        mark = len(bus.log) if bus is not None else 0
        k.sleep(1500 * MS)
        if dump(slave, plan["blocks"]) != values:
            raise Violation("values changed after stop", what)
        if bus is not None and any(e[2] == "srv" for e in bus.log[mark:]):
            raise Violation("bytes sent after stop", what)
        check_stopped(what + " later")
        k.ops_done += 1

    flags["on"] = False
    flags["stopping"] = 0
    st["stopped"] = False
    start("final start")
    k.sleep(1 * SEC)
    verify("final")
    flags["on"] = False
    flags["end"] = True
    for t in chs:
        k.join(t)
    stop("final stop")
    st["stopped"] = True
    check_stopped("final stop")
    if st["served"]:
        k.probe("requests served", st["served"])
