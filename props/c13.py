"""C13 hooks can be installed, removed and called from any thread and may call back"""
from dst.kit import *

WHAT = ("registry runs: 1-4 threads firing events (custom, slave, block), installing, removing and clearing hooks "
        "that call back into the library; traffic runs: counting, replacing and raising hooks on every event of a "
        "TCP or RTU master and server pair; empty runs: a hook replaces a message by an empty one; twin runs: one "
        "function installed several times; nested runs: hooks of a master execute requests; event runs: every documented event of TCP, RTU and RTU over TCP counted")
STALL = (0.2, 4)
RUNS = {"quick": 14000, "thorough": 300000}

SLAVE_EVENTS = ["modbus.Slave.handle_request", "modbus.ModbusBlock.setitem",
                "modbus.Slave.handle_write_single_register_request"]
ACTIONS = ["none", "none", "point", "sleep", "get", "set", "install", "uninstall_self", "uninstall_other", "nested",
           "slave_add"]


def gen(rng, tier):
    if rng.random() < 0.08:
        return gen_empty(rng)
    if rng.random() < 0.06:
        return gen_events(rng)
    if rng.random() < 0.1:
        return gen_twin(rng) if rng.random() < 0.4 else gen_nest(rng)
    if rng.random() < 0.65:
        return gen_registry(rng)
    return gen_traffic(rng)


def gen_hook(rng, where):
    acts = [rng.choice(ACTIONS) for _ in range(rng.choice([1, 1, 2]))]
    if where != "custom":
        # called while the slave is locked: stay on this slave and on the registry
        acts = [a if a not in ("nested",) else "point" for a in acts]
        if where == "modbus.ModbusBlock.setitem":
            acts = [a if a not in ("set",) else "point" for a in acts]
    return {"acts": acts, "ret": rng.random() < 0.15}


def gen_registry(rng):
    events = ["custom.a", "custom.b"] if rng.random() < 0.5 else ["custom.a"] + rng.sample(SLAVE_EVENTS, 2)
    pre = [{"ev": rng.choice(events)} for _ in range(rng.randint(0, 4))]
    for p in pre:
        p["h"] = gen_hook(rng, "custom" if p["ev"].startswith("custom") else p["ev"])
    threads = []
    n = rng.randint(1, 4)
    db = any(not e.startswith("custom") for e in events) and rng.random() < 0.6
    if db and rng.random() < 0.5:
        # the table of slaves changes while a slave is locked
        ev = rng.choice([e for e in events if not e.startswith("custom")])
        pre.append({"ev": ev, "h": {"acts": ["slave_add"], "ret": False}})
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(2, 9) if n < 3 else rng.randint(2, 5)):
            ev = rng.choice(events)
            where = "custom" if ev.startswith("custom") else ev
            r = rng.random()
            if r < 0.25:
                ops.append(["install", ev, gen_hook(rng, where)])
            elif r < 0.4:
                ops.append(["uninstall", rng.randrange(8)])
            elif r < 0.44:
                ops.append(["clear", ev])
            elif r < 0.5:
                ops.append(["pause", rng.choice([10, 100, 1000])])
            elif db and r < 0.6:
                ops.append(["bcast"])
            else:
                # through the databank of a server, or at the slave itself
                ops.append(["firedb" if db and rng.random() < 0.7 else "fire", ev])
        threads.append({"ops": ops})
    return {"mode": "registry", "pre": pre, "threads": threads, "slaves": rng.choice([1, 2])}


TCP_EVENTS = {
    "modbus_tcp.TcpServer.on_connect": 0, "modbus_tcp.TcpServer.on_disconnect": 0,
    "modbus_tcp.TcpServer.after_recv": 0, "modbus_tcp.TcpServer.before_send": 4,
    "modbus_tcp.TcpServer.after_send": 0, "modbus_tcp.TcpServer.on_error": 0,
    "modbus_tcp.TcpMaster.before_connect": 0, "modbus_tcp.TcpMaster.after_connect": 0,
    "modbus_tcp.TcpMaster.before_close": 0, "modbus_tcp.TcpMaster.after_close": 0,
    "modbus_tcp.TcpMaster.before_send": 16, "modbus_tcp.TcpMaster.after_recv": 32,
}
RTU_EVENTS = {
    "modbus_rtu.RtuServer.after_read": 1 << 8, "modbus_rtu.RtuServer.before_write": 4,
    "modbus_rtu.RtuServer.after_write": 0, "modbus_rtu.RtuServer.on_error": 0,
    "modbus_rtu.RtuMaster.before_send": 16, "modbus_rtu.RtuMaster.after_recv": 32,
}
COMMON = {
    "modbus.Master.before_send": 8, "modbus.Master.after_send": 0, "modbus.Master.after_recv": 64,
    "modbus.Server.before_handle_request": 1, "modbus.Server.after_handle_request": 2,
    "modbus.Slave.handle_request": -1, "modbus.Slave.handle_write_single_register_request": 0,
    "modbus.ModbusBlock.setitem": 0, "modbus.Server.on_exception": 0, "modbus.Databank.on_error": 0,
    "modbus.Slave.on_exception": 0, "modbus.Slave.on_handle_broadcast": 0,
    "modbus.Slave.handle_read_holding_registers_request": 0,
}
# requests which are not answered or refused: unit, pdu and the events of the slave; all others are the same
EXTRA = {
    "broadcast": (0, b"\x06\x00\x02\x12\x34", ("handle_request", "handle_write_single_register_request", "setitem",
                                                "on_handle_broadcast")),
    "broadcast read": (0, b"\x03\x00\x00\x00\x02", ("handle_request",)),
    "unknown unit": (9, b"\x06\x00\x02\x12\x34", ()),
    "refused": (1, b"\x03\x40\x00\x00\x02", ("handle_request", "handle_read_holding_registers_request", "on_exception",
                                              "answer")),
    "failing": (1, b"\x03\x00\x0a\x00\x01", ("handle_request", "handle_read_holding_registers_request", "on_error",
                                              "answer")),
    "function": (1, b"\x63\x40\x00\x00\x02", ("handle_request", "on_exception", "answer")),
    "read": (1, b"\x03\x00\x05\x00\x02", ("handle_request", "handle_read_holding_registers_request", "answer")),
}
REQ_SIDE = ("modbus.Master.before_send", "modbus_tcp.TcpMaster.before_send", "modbus_rtu.RtuMaster.before_send",
            "modbus.Server.before_handle_request", "modbus_rtu.RtuServer.after_read")
SERVER_RAISE = [e for e in list(TCP_EVENTS) + list(RTU_EVENTS) + list(COMMON) if "Master" not in e]


def gen_traffic(rng):
    tr = rng.choice(["tcp", "tcp", "rtu"])
    evs = dict(COMMON)
    evs.update(TCP_EVENTS if tr == "tcp" else RTU_EVENTS)
    names = sorted(evs)
    hooks = []
    raising = rng.random() < 0.55
    if raising:
        cand = [e for e in SERVER_RAISE if e in evs]
        for e in rng.sample(cand, rng.randint(1, 4)):
            hooks.append({"ev": e, "kind": "raise", "from": rng.choice([1, 1, 2, 3]), "n": rng.choice([1, 1, 2, 50]),
                          "exc": rng.choice(["ValueError", "KeyError", "OSError", "RuntimeError"])})
        if rng.random() < 0.5:
            hooks.append({"ev": rng.choice([e for e in cand if "on_error" in e]), "kind": "raise", "from": 1, "n": 50,
                          "exc": "RuntimeError"})
    else:
        preplace = rng.choice([0, 0.6, 0.6])
        for e in rng.sample(names, rng.randint(2, 7) if preplace else rng.randint(4, 12)):
            if rng.random() < 0.8:
                hooks.append({"ev": e, "kind": "count"})
            if evs[e] and rng.random() < preplace:
                hooks.append({"ev": e, "kind": "replace"})
                if rng.random() < 0.7:
                    hooks.append({"ev": e, "kind": "count"})
    extra = []
    if not raising and not any(h["kind"] == "replace" for h in hooks):
        extra = [rng.choice(sorted(EXTRA)) for _ in range(rng.choice([0, 1, 3, 5]))]
    return {"mode": "traffic", "tr": tr, "hooks": hooks, "raising": raising, "extra": extra,
            "bad": raising and rng.random() < 0.6,
            "reqs": [rng.randrange(0, 0x7FFF) for _ in range(rng.randint(1, 6))],
            "clients": rng.choice([1, 2, 3]) if raising and tr == "tcp" else 1, "net": {"lat": 20 * US}}


# hooks that may return an empty message, and whether the request is executed then
EMPTY = {
    "modbus.Master.before_send": False, "modbus.Master.after_recv": True,
    "modbus_tcp.TcpMaster.before_send": False, "modbus_tcp.TcpMaster.after_recv": True,
    "modbus_rtu.RtuMaster.before_send": False, "modbus_rtu.RtuMaster.after_recv": True,
    "modbus.Server.before_handle_request": False, "modbus.Server.after_handle_request": True,
    "modbus_tcp.TcpServer.after_recv": False, "modbus_tcp.TcpServer.before_send": True,
    "modbus_rtu.RtuServer.after_read": False, "modbus_rtu.RtuServer.before_write": True,
}


def gen_empty(rng):
    tr = rng.choice(["tcp", "rtu"])
    evs = sorted(e for e in EMPTY if not e.startswith("modbus_rtu" if tr == "tcp" else "modbus_tcp"))
    return {"mode": "empty", "tr": tr, "steps": [{"ev": rng.choice(evs), "none": rng.choice([0, 0, 1, 2]),
                                                  "v": rng.randrange(1, 0xFFFF), "ba": rng.random() < 0.5}
                                                 for _ in range(rng.randint(1, 3))], "net": {"lat": 20 * US}}


def run_empty(k, w, plan):
    H = w.hooks
    tcp = plan["tr"] == "tcp"
    db = w.modbus.Databank()
    slave = setup_slave(w, db, 1, [["r", 3, 0, 20]])
    if tcp:
        server = w.modbus_tcp.TcpServer(port=1502, databank=db)
        master = w.modbus_tcp.TcpMaster("127.0.0.1", 1502, 0.4)
    else:
        bus = Bus(k, 115200)
        server = w.modbus_rtu.RtuServer(FakeSerial(bus.endpoint("srv"), 115200), databank=db)
        master = w.modbus_rtu.RtuMaster(FakeSerial(bus.endpoint("mst"), 115200))
        master.set_timeout(0.2)
    server.start()
    k.sleep(20 * MS)
    stalling(k)
    for st in plan["steps"]:
        calls = []

        def make(name, ret):
            def hook(args):
                calls.append(name)
                return ret
            return hook

        hooks = [make("none", None) for _ in range(st["none"])] + [
            make("empty", bytearray() if st["ba"] else b""), make("late", None)]
        slave.set_values("r", 1, 0)
        for h in hooks:
            H.install_hook(st["ev"], h)
        res, exc = call(master.execute, 1, 6, 1, output_value=st["v"])
        k.sleep(1500 * MS)
        for h in hooks:
            H.uninstall_hook(st["ev"], h)
        want = ["none"] * st["none"] + ["empty"]
        if calls[:len(want)] != want or "late" in calls:
            raise Violation("empty replacement not effective", "%s: hooks called: %s" % (st["ev"], calls))
        if exc is None:
            raise Violation("empty replacement not effective", "%s: the master returned %r" % (st["ev"], res))
        got = slave.get_values("r", 1, 1)[0]
        if got != (st["v"] if EMPTY[st["ev"]] else 0):
            raise Violation("empty replacement not effective", "%s: the register holds %d" % (st["ev"], got))
        k.ops_done += 1
        unstall(k)
        silently(master.execute, 1, 3, 1, 1)
        res, exc = call(master.execute, 1, 3, 1, 1)
        if exc is not None or tuple(res) != (got,):
            raise Violation("no answer after the hook was removed", "%s: %r %r" % (st["ev"], res, exc))
        stalling(k)
    k.probe("messages replaced by nothing", len(plan["steps"]))
    master.close()
    silently(server.stop)


def gen_twin(rng):
    return {"mode": "twin", "threads": [[rng.choice(["install", "install", "remove", "fire"]) for _ in range(rng.randint(2, 8))]
                                        for _ in range(rng.choice([1, 2, 3]))], "other": rng.random() < 0.5}


def run_twin(k, w, plan):
    """the same function installed several times is called once for each installation which was not removed"""
    H = w.hooks
    stalling(k)
    calls = {}
    mine = [0]

    def twin(args):
        calls[k.current.tid] = calls.get(k.current.tid, 0) + 1
        k.point()

    def other(args):
        k.point()

    if plan["other"]:
        H.install_hook("custom.t", other)
    low, high = [0], [0]           # installations that are certain, and possible ones

    def body(ops):
        own = 0
        for op in ops:
            if op == "install":
                high[0] += 1
                H.install_hook("custom.t", twin)
                low[0] += 1
                own += 1
            elif op == "remove" and own:
                own -= 1
                low[0] -= 1
                H.uninstall_hook("custom.t", twin)
                high[0] -= 1
            elif op == "fire":
                me = k.current.tid
                calls[me] = 0
                H.call_hooks("custom.t", ())
                if len(plan["threads"]) == 1 and calls[me] != own:
                    raise Violation("hook called twice" if calls[me] > own else "hook not called",
                                    "installed %d times, called %d times" % (own, calls[me]))
                if calls[me] < own:
                    raise Violation("hook not called", "this thread alone installed it %d times, called %d times" % (
                        own, calls[me]))
            k.ops_done += 1

    ts = [k.spawn(body, (o,), "T%d" % i, harness=True) for i, o in enumerate(plan["threads"])]
    for t in ts:
        k.join(t)
    me = k.current.tid
    calls[me] = 0
    H.call_hooks("custom.t", ())
    if calls[me] != high[0]:
        raise Violation("hook called twice" if calls[me] > high[0] else "hook not called",
                        "%d installations left, called %d times" % (high[0], calls[me]))
    k.probe("functions installed several times")


NEST = ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv",
        "modbus_tcp.TcpMaster.before_send", "modbus_tcp.TcpMaster.after_recv", "modbus_tcp.TcpMaster.before_connect",
        "modbus_tcp.TcpMaster.after_connect"]


def gen_nest(rng):
    return {"mode": "nest", "hooks": [[rng.choice(NEST), rng.randrange(20)] for _ in range(rng.choice([1, 1, 2]))],
            "threads": [[[rng.randrange(2), rng.randrange(20), rng.choice([0, 0, 3])] for _ in range(rng.randint(1, 4))]
                        for _ in range(rng.choice([1, 2, 3]))], "net": netcfg(rng, 0.7)}


def run_nest(k, w, plan):
    """hooks of one master execute requests with another master while threads use both"""
    db = w.modbus.Databank()
    slave = setup_slave(w, db, 1, [["r", 3, 0, 30]])
    slave.set_values("r", 0, [1000 + 37 * i for i in range(30)])
    server = w.modbus_tcp.TcpServer(port=1502, databank=db)
    server.start()
    k.sleep(20 * MS)
    stalling(k)
    masters = [w.modbus_tcp.TcpMaster("127.0.0.1", 1502, 60.0) for _ in range(3)]

    def read(m, a, what):
        got = m.execute(1, 3, a, 3)
        if tuple(got) != tuple(1000 + 37 * (a + i) for i in range(3)):
            raise Violation("wrong answer", "%s: registers %d..: %r" % (what, a, got))
        k.ops_done += 1

    def make(a):
        def hook(args):
            if args[0] is masters[0]:
                k.probe("request executed by a hook of a master")
                read(masters[2], a, "in a hook")
        return hook

    for ev, a in plan["hooks"]:
        w.hooks.install_hook(ev, make(a))

    def body(ops):
        for m, a, gap in ops:
            k.sleep(gap * MS)
            read(masters[m], a, "in a thread")

    ts = [k.spawn(body, (o,), "T%d" % i, harness=True) for i, o in enumerate(plan["threads"])]
    for t in ts:
        k.join(t)
    for m in masters:
        m.close()
    silently(server.stop)


def run(k, w, plan):
    if plan["mode"] == "empty":
        run_empty(k, w, plan)
    elif plan["mode"] == "events":
        run_events(k, w, plan)
    elif plan["mode"] == "twin":
        run_twin(k, w, plan)
    elif plan["mode"] == "nest":
        run_nest(k, w, plan)
    elif plan["mode"] == "registry":
        run_registry(k, w, plan)
    else:
        run_traffic(k, w, plan)


# ---------------------------------------------------------------------- all documented events
EVBLOCKS = [["c", 1, 0, 20], ["d", 2, 0, 20], ["r", 3, 0, 20], ["i", 4, 0, 20]]
HANDLERS = {1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
            5: "write_single_coil", 6: "write_single_register", 7: "read_exception_status", 15: "write_multiple_coils",
            16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers"}
EV_MASTER = ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv"]
EV_SERVER = ["modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Server.on_exception",
             "modbus.Databank.on_error", "modbus.Slave.handle_request", "modbus.Slave.on_exception",
             "modbus.Slave.on_handle_broadcast", "modbus.ModbusBlock.setitem"] + [
             "modbus.Slave.handle_%s_request" % h for h in HANDLERS.values()]
EV_TM = ["modbus_tcp.TcpMaster." + x for x in ("before_connect", "after_connect", "before_close", "after_close", "before_send",
                                               "after_recv")]
EV_TS = ["modbus_tcp.TcpServer." + x for x in ("on_connect", "on_disconnect", "after_recv", "before_send", "after_send",
                                               "on_error")]
EV_RM = ["modbus_rtu.RtuMaster." + x for x in ("before_open", "after_close", "before_send", "after_recv")]
EV_RS = ["modbus_rtu.RtuServer." + x for x in ("before_close", "after_close", "before_open", "after_open", "after_read",
                                               "before_write", "after_write", "on_error")]


def gen_events(rng):
    tr = rng.choice(["tcp", "rtu", "rtuotcp"])
    g = Gen(rng)
    steps = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.75:
            steps.append(["req", g.pdu(EVBLOCKS, FCS, 0.12, 18).hex()])
        elif r < 0.88:
            steps.append(["close"])
        else:
            steps.append(["restart"])
    return {"mode": "events", "tr": tr, "steps": steps, "net": {"lat": 20 * US},
            "rep": rng.choice([None, None, 0, 1, 2, 3]) if tr == "rtuotcp" else None}


def run_events(k, w, plan):
    """every documented event of a master, a server and a slave is reported once, with its object and message"""
    H = w.hooks
    tr = plan["tr"]
    lay = Layout(EVBLOCKS, True)
    state = lay.initial()
    server = slave = bus = None
    evs = list(EV_MASTER)
    if tr != "rtuotcp":
        db = w.modbus.Databank()
        slave = setup_slave(w, db, 1, EVBLOCKS)
        evs += EV_SERVER
    if tr == "tcp":
        server = w.modbus_tcp.TcpServer(port=1502, databank=db)
        master = w.modbus_tcp.TcpMaster("127.0.0.1", 1502, 60.0)
        evs += EV_TM + EV_TS
    elif tr == "rtu":
        bus = Bus(k, 115200)
        server = w.modbus_rtu.RtuServer(FakeSerial(bus.endpoint("srv"), 115200), databank=db)
        master = w.modbus_rtu.RtuMaster(FakeSerial(bus.endpoint("mst"), 115200))
        master.set_timeout(0.5)
        evs += EV_RM + EV_RS
    else:
        master = w.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", 1502, 60.0)
        evs += EV_TM + ["modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"]
        stub = Stub(k, None, w.net, 1502, "rtu")
        stub.up()
        stub.req_len = lambda buf: cur["len"]

        def respond(link, frame):
            if not rtu_ok(frame):
                k.fail("damaged request", frame.hex())
                return
            kind, resps, codes, new = lay.request(cur["state"], frame[1:-2])
            cur["seen"] = bytes(frame[1:-2])
            if kind == "ok":
                cur["state"] = new
            link.send(rtu_frame(frame[0], resps[0] if kind == "ok" else bytes((frame[1] | 0x80, codes[0]))), 1 * MS)
        stub.respond = respond
    cur = {"state": state, "pdu": b"", "len": 0}
    got = dict((e, 0) for e in evs)
    want = dict((e, 0) for e in evs)

    def make(ev):
        def hook(args):
            got[ev] += 1
            obj = args[0]
            who = master if "Master" in ev else slave if ".Slave." in ev else server if "Server" in ev else None
            if who is not None and obj is not who:
                raise_later("hook arguments", "%s called with %r" % (ev, obj))
            if ev.startswith("modbus.Slave.handle") and bytes(args[1]) != cur["pdu"]:
                raise_later("hook arguments", "%s called with %s for %s" % (ev, short(args[1]), cur["pdu"].hex()))
            if ("before_send" in ev or "after_read" in ev or "before_handle" in ev) and "TcpServer" not in ev and not rep \
                    and cur["pdu"] not in bytes(args[-1]):
                raise_later("hook arguments", "%s called with %s for %s" % (ev, short(args[-1]), cur["pdu"].hex()))
        return hook

    def raise_later(kind, what):
        k.fail(kind, what)

    def add(*names):
        for nm in names:
            if nm in want:
                want[nm] += 1

    for ev in evs:
        H.install_hook(ev, make(ev))
    rep = None
    if plan["rep"] is not None:
        rep = ["modbus.Master.before_send", "modbus_tcp.TcpMaster.before_send", "modbus.Master.after_recv",
               "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"][plan["rep"]]
        fixed = p_read(3, 3, 4)

        def replace(args):
            if "before_send" in rep:
                cur["len"] = len(fixed) + 3
                return rtu_frame(1, fixed)
            return rtu_frame(1, bytes(args[-1][1:2]) + b"\x02\x12\x34")
        H.install_hook(rep, replace)

    def check(what):
        unstall(k)
        k.sleep(200 * MS)
        for ev in evs:
            n = got[ev]
            if ev == "modbus.ModbusBlock.setitem":
                # a write of several items may be one event or several
                if (n > 0) != (want[ev] > 0):
                    raise Violation("hook call count", "%s called %d times after %s" % (ev, n, what))
            elif n != want[ev]:
                raise Violation("hook call count", "%s called %d times instead of %d after %s (%s)" % (ev, n, want[ev], what, tr))
        stalling(k)

    if server is not None:
        server.start()
        k.sleep(20 * MS)
    stalling(k)
    opened = [False, tr == "rtu"]             # the connection, the serial port
    for st in plan["steps"]:
        if st[0] == "close":
            master.close()
            if tr == "rtu":
                if opened[0]:
                    add("modbus_rtu.RtuMaster.after_close")
                    opened[1] = False
            elif opened[0]:
                add("modbus_tcp.TcpMaster.before_close", "modbus_tcp.TcpMaster.after_close", "modbus_tcp.TcpServer.on_disconnect")
            opened[0] = False
            check("close")
            continue
        if st[0] == "restart":
            if server is None or (tr == "tcp" and opened[0]):
                continue
            server.stop()
            add("modbus_rtu.RtuServer.before_close", "modbus_rtu.RtuServer.after_close")
            server.start()
            k.sleep(20 * MS)
            add("modbus_rtu.RtuServer.before_open", "modbus_rtu.RtuServer.after_open")
            check("restart")
            continue
        pdu = bytes.fromhex(st[1])
        fc = pdu[0]
        cur["pdu"], cur["len"] = pdu, len(pdu) + 3
        if not opened[0]:
            if tr != "rtu":
                add("modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_connect", "modbus_tcp.TcpServer.on_connect")
            elif not opened[1]:
                add("modbus_rtu.RtuMaster.before_open")
            opened[0] = opened[1] = True
        kind, resps, codes, new = lay.request(state, pdu)
        # RAW: the length of the answer is not known beforehand
        res, exc = call(master.execute, 1, 0, 0, pdu=pdu, returns_raw=True,
                        expected_length=-1 if tr != "rtuotcp" else 13 if rep and "before_send" in rep
                        else len(resps[0]) + 3 if kind == "ok" else 5)
        k.ops_done += 1
        add(*EV_MASTER)
        add("modbus_tcp.TcpMaster.before_send", "modbus_rtu.RtuMaster.before_send", "modbus_rtu.RtuMaster.after_recv",
            "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv")
        if tr == "tcp":
            add("modbus_tcp.TcpMaster.after_recv")
        add("modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Slave.handle_request",
            "modbus.Slave.handle_%s_request" % HANDLERS[fc], "modbus_tcp.TcpServer.after_recv",
            "modbus_tcp.TcpServer.before_send", "modbus_tcp.TcpServer.after_send", "modbus_rtu.RtuServer.after_read",
            "modbus_rtu.RtuServer.before_write", "modbus_rtu.RtuServer.after_write")
        if kind != "ok":
            add("modbus.Slave.on_exception")
        elif fc in (5, 6, 15, 16, 22, 23):
            add("modbus.ModbusBlock.setitem")
        if rep and "before_send" in rep:
            if cur["seen"] != fixed:
                raise Violation("replacement not effective", "%s: %s was sent" % (rep, cur["seen"].hex()))
        elif rep:
            if exc is not None or bytes(res) != b"\x02\x12\x34":
                if kind == "ok":
                    raise Violation("replacement not effective", "%s: %s %s" % (rep, res, exc))
        elif kind == "ok":
            state = new
            if exc is not None or (bytes([fc]) + bytes(res)) not in resps:
                raise Violation("wrong answer", "%s: %s %r" % (pdu.hex(), res, exc))
        elif "ModbusError" not in errname(w, exc) or exc.get_exception_code() not in codes:
            raise Violation("wrong answer", "%s: %s %r" % (pdu.hex(), res, exc))
        k.probe("events counted")
        check("request " + pdu.hex())
    silently(server.stop if server is not None else master.close)


# ---------------------------------------------------------------------- registry
class HookRec(object):
    def __init__(self, hid, ev, spec):
        self.hid, self.ev, self.spec = hid, ev, spec
        self.inst = [None, None]
        self.gone = [None, None]      # begin and end of its removal
        self.fn = None
        self.removing = False


class Event(object):
    def __init__(self, eid, name):
        self.eid, self.name = eid, name
        self.b = self.e = None
        self.calls = []               # (hid, begin, end, returned)
        self.result = None


def run_registry(k, w, plan):
    H = w.hooks
    db = w.modbus.Databank()
    slaves = [setup_slave(w, db, i + 1, [["r", 3, 0, 100]]) for i in range(plan["slaves"])]
    recs = []
    events = []
    stack = {}
    counter = [0]

    def value():
        counter[0] += 1
        return counter[0] % 60000

    def make(rec):
        def hook(args):
            me = k.current
            depth = stack.setdefault(me.tid, [])
            ev = depth[-1] if depth else None
            # find the event this call belongs to: the innermost one of this thread with that name
            ev = next((e for e in reversed(depth) if e.name == rec.ev), None)
            if ev is None:
                k.probe("call outside of a tracked event")
            call_ = [rec.hid, stamp(k), None, None]
            if ev is not None:
                ev.calls.append(call_)
            k.note("hook %d" % rec.hid)
            if len(depth) < 3:
                for act in rec.spec["acts"]:
                    do_act(act, rec, ev, args)
            call_[2] = stamp(k)
            if rec.spec["ret"]:
                r = ret_value(rec, ev)
                call_[3] = r
                return r
            return None
        return hook

    def ret_value(rec, ev):
        if rec.ev == "modbus.Slave.handle_request":
            return b"\x07" + bytes([rec.hid & 0xFF])
        return "value of hook %d" % rec.hid

    def do_act(act, rec, ev, args):
        locked = not rec.ev.startswith("custom")
        if act == "point":
            k.point()
        elif act == "sleep":
            k.sleep(100 * US)
        elif act in ("get", "set"):
            s = args[0] if locked and rec.ev != "modbus.ModbusBlock.setitem" else slaves[rec.hid % len(slaves)]
            if rec.ev == "modbus.ModbusBlock.setitem":
                return
            if act == "get":
                s.get_values("r", 0, 5)
            else:
                fire_set(s)
        elif act == "install":
            if len(recs) < 14:
                install(rec.ev, {"acts": ["none"], "ret": False})
        elif act == "uninstall_self":
            uninstall(rec)
        elif act == "uninstall_other":
            others = [r for r in recs if r.inst[1] is not None and not r.removing and r is not rec]
            if others:
                uninstall(others[rec.hid % len(others)])
        elif act == "nested":
            fire("custom.a" if rec.ev != "custom.a" else "custom.b")
        elif act == "slave_add":
            counter[0] += 1
            sid = 10 + counter[0] % 200
            silently(db.add_slave, sid)
            silently(db.remove_slave, sid)

    def fire_set(s):
        """set_values is an event of its own for the setitem hooks"""
        ev = Event(len(events), "modbus.ModbusBlock.setitem")
        events.append(ev)
        st = stack.setdefault(k.current.tid, [])
        st.append(ev)
        ev.b = stamp(k)
        s.set_values("r", 3, value())
        ev.e = stamp(k)
        st.pop()
        ev.result = "ignored"

    def install(ev, spec):
        rec = HookRec(len(recs), ev, spec)
        recs.append(rec)
        rec.fn = make(rec)
        rec.inst[0] = stamp(k)
        H.install_hook(ev, rec.fn)
        rec.inst[1] = stamp(k)
        return rec

    def uninstall(rec):
        if rec.removing or rec.inst[1] is None:
            return
        rec.removing = True
        b = stamp(k)
        if rec.gone[0] is None:
            rec.gone[0] = b
        _, exc = call(H.uninstall_hook, rec.ev, rec.fn)
        if exc is not None:
            cleared = [c for c in clears if c[0] == rec.ev]
            if not cleared or not isinstance(exc, (ValueError, KeyError)):
                raise Violation("uninstall failed", "hook %d of %s: %r" % (rec.hid, rec.ev, exc))
        e = stamp(k)
        if rec.gone[1] is None:
            rec.gone[1] = e

    clears = []

    def clear(ev):
        installed = [r for r in recs if r.ev == ev and r.inst[1] is not None]
        b = stamp(k)
        clears.append((ev, b))
        for r in recs:
            if r.ev == ev and r.gone[0] is None:
                r.gone[0] = b          # may be removed from now on
        _, exc = call(H.uninstall_hook, ev)
        if exc is not None and not (isinstance(exc, KeyError) and not installed):
            raise Violation("uninstall failed", "all hooks of %s: %r" % (ev, exc))
        e = stamp(k)
        for r in recs:
            if r.ev == ev:
                if r.inst[0] < e and (r.gone[0] is None or r.gone[0] > b):
                    r.gone[0] = b
                if r in installed and r.gone[1] is None:
                    r.gone[1] = e
                elif r not in installed and r.inst[0] >= e:
                    pass

    def fire(name, via_db=False):
        ev = Event(len(events), name)
        events.append(ev)
        st = stack.setdefault(k.current.tid, [])
        if name.startswith("custom"):
            st.append(ev)
            ev.b = stamp(k)
            ev.result = H.call_hooks(name, (ev,))
            ev.e = stamp(k)
            st.pop()
        else:
            s = slaves[ev.eid % len(slaves)]
            evs = []
            # one write request fires three events in this thread
            for nm in SLAVE_EVENTS:
                e = ev if nm == name else Event(len(events), nm)
                if e is not ev:
                    events.append(e)
                evs.append(e)
                st.append(e)
                e.b = stamp(k)
            v = value()
            if via_db:
                uid = 1 + slaves.index(s)
                frame = db.handle_request(w.modbus_tcp.TcpQuery(), mbap(5, uid, p_w1(6, 1, v)))
                if not frame:
                    raise Violation("wrong answer", "none")
                resp = bytes(frame)[7:]
            else:
                resp = bytes(s.handle_request(p_w1(6, 1, v)))
            for e in evs:
                e.e = stamp(k)
                st.pop()
                e.result = "ignored"
            hr = evs[0]
            stopped = [c[3] for c in hr.calls if c[3] is not None]
            if stopped:
                # the hook answered for the slave: the other events did not happen
                if resp != stopped[0]:
                    raise Violation("hook result ignored", "answer %s, hook returned %s" % (
                        resp.hex(), stopped[0].hex()))
                for e in evs[1:]:
                    if e.calls:
                        raise Violation("hook called", "%s after the request had been answered by a hook" % e.name)
                    events.remove(e)
            elif resp != p_w1(6, 1, v):
                raise Violation("wrong answer", resp.hex())
        k.ops_done += 1

    for p in plan["pre"]:
        install(p["ev"], p["h"])

    def body(spec):
        for op in spec["ops"]:
            if op[0] == "install":
                install(op[1], op[2])
            elif op[0] == "uninstall":
                cand = [r for r in recs if r.inst[1] is not None and not r.removing]
                if cand:
                    uninstall(cand[op[1] % len(cand)])
            elif op[0] == "clear":
                clear(op[1])
            elif op[0] == "pause":
                k.sleep(op[1] * US)
            elif op[0] == "bcast":
                # its events are not counted: what its hooks do is
                db.handle_request(w.modbus_tcp.TcpQuery(), mbap(6, 0, p_w1(6, 2, 77)))
                k.probe("broadcasts")
            elif op[0] == "firedb":
                fire(op[1], True)
            else:
                fire(op[1])

    tasks = [k.spawn(body, (t,), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    for t in tasks:
        k.join(t)
    for name in sorted(set(["custom.a", "custom.b"] + SLAVE_EVENTS[:1])):
        fire(name)
    check_events(k, recs, events)


def check_events(k, recs, events):
    for ev in events:
        if ev.e is None:
            continue
        hs = [r for r in recs if r.ev == ev.name]
        count = {}
        for hid, b, e, ret in ev.calls:
            count[hid] = count.get(hid, 0) + 1
        order = [c[0] for c in ev.calls]
        pos = {h: i for i, h in enumerate(order)}
        stopper = None
        for i, c in enumerate(ev.calls):
            if c[3] is not None:
                stopper = i
                if i != len(ev.calls) - 1:
                    raise Violation("chain not ended", "event %d of %s: hooks %s called after %d returned a value" % (
                        ev.eid, ev.name, order[i + 1:], c[0]))
        if ev.result != "ignored":
            want = ev.calls[stopper][3] if stopper is not None else None
            if ev.result != want:
                raise Violation("wrong hook result", "event of %s returned %r instead of %r" % (
                    ev.name, ev.result, want))
        for r in hs:
            n = count.get(r.hid, 0)
            if n > 1:
                raise Violation("hook called twice", "hook %d for one event of %s" % (r.hid, ev.name))
            if n and r.gone[1] is not None and r.gone[1] < ev.b:
                raise Violation("removed hook called", "hook %d of %s" % (r.hid, ev.name))
            if n and r.inst[0] > ev.e:
                raise Violation("hook called before its installation", "hook %d" % r.hid)
            sure = r.inst[1] is not None and r.inst[1] < ev.b and (r.gone[0] is None or r.gone[0] > ev.e)
            if sure and not n:
                if stopper is None:
                    raise Violation("hook not called", "hook %d for an event of %s (called: %s)" % (
                        r.hid, ev.name, order))
                s = recs[ev.calls[stopper][0]]
                if r.inst[1] < s.inst[0]:
                    raise Violation("hook not called", "hook %d, installed before %d which ended the chain of %s" % (
                        r.hid, s.hid, ev.name))
        for a in hs:
            for b in hs:
                if a is not b and a.hid in pos and b.hid in pos and a.inst[1] < b.inst[0] \
                        and pos[a.hid] > pos[b.hid]:
                    raise Violation("hooks out of order", "%s: %s" % (ev.name, order))


# ---------------------------------------------------------------------- traffic
EXCS = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "RuntimeError": RuntimeError}


def run_traffic(k, w, plan):
    H = w.hooks
    tcp = plan["tr"] == "tcp"
    db = w.modbus.Databank()
    slave = setup_slave(w, db, 1, [["r", 3, 0, 20]])
    slave.set_values("r", 10, 70000)      # cannot be sent: reading it fails
    bus = None
    if tcp:
        server = w.modbus_tcp.TcpServer(port=1502, databank=db)
    else:
        bus = Bus(k, 115200)
        server = w.modbus_rtu.RtuServer(FakeSerial(bus.endpoint("srv"), 115200), databank=db)
    evs = dict(COMMON)
    evs.update(TCP_EVENTS if tcp else RTU_EVENTS)

    def flip(frame, bits):
        f = bytearray(frame)
        if tcp:
            f[-1] ^= bits & 0xFF
            f[-2] ^= bits >> 8
            return bytes(f)
        f[-3] ^= bits & 0xFF
        f[-4] ^= bits >> 8
        return rtu_frame(f[0], bytes(f[1:-2]))

    counts = []

    def make(spec):
        rec = [spec["ev"], spec["kind"], 0]
        counts.append(rec)

        def hook(args):
            rec[2] += 1
            k.note("%s %s %d" % (spec["ev"], spec["kind"], rec[2]))
            if spec["kind"] == "count":
                return None
            if spec["kind"] == "raise":
                if spec["from"] <= rec[2] < spec["from"] + spec["n"]:
                    k.fault("hook raises")
                    raise EXCS[spec["exc"]]("injected in %s" % spec["ev"])
                return None
            bits = evs[spec["ev"]]
            if bits == -1:
                return bytes(args[-1][:3]) + b"\xAB\xCD"
            return flip(args[-1], bits)
        return hook

    for spec in plan["hooks"]:
        H.install_hook(spec["ev"], make(spec))
    server.start()
    k.sleep(20 * MS)
    stalling(k)
    if plan["raising"]:
        storm(k, w, plan, tcp, bus)
        H_uninstall(H, plan)
        unstall(k)
        recover(k, w, tcp, bus, slave)
        silently(server.stop)
        return

    # counting and replacing hooks
    if tcp:
        master = w.modbus_tcp.TcpMaster("127.0.0.1", 1502, 5.0)
    else:
        master = w.modbus_rtu.RtuMaster(FakeSerial(bus.endpoint("mst"), 115200))
        master.set_timeout(0.2)
    master.open()
    rep = set(h["ev"] for h in plan["hooks"] if h["kind"] == "replace")
    n = 0
    mem = 0
    for v in plan["reqs"]:
        before = slave.get_values("r", 1, 1)[0]
        got = master.execute(1, 6, 1, output_value=v)
        n += 1
        k.ops_done += 1
        bits = 0
        req_bits = 0
        for e in rep:
            if evs[e] > 0:
                bits ^= evs[e]
                if e in REQ_SIDE:
                    req_bits ^= evs[e]
        val = v ^ bits
        want_mem = v ^ req_bits
        if "modbus.Slave.handle_request" in rep:
            val = 0xABCD ^ bits ^ req_bits
            want_mem = before
        if tuple(got) != (1, val):
            raise Violation("replacement not effective", "master got %r instead of %r with %s" % (
                got, (1, val), sorted(rep)))
        if slave.get_values("r", 1, 1)[0] != want_mem:
            raise Violation("replacement not effective", "register holds %d instead of %d with %s" % (
                slave.get_values("r", 1, 1)[0], want_mem, sorted(rep)))
    k.sleep(100 * MS)
    master.close()
    k.sleep(100 * MS)
    more = {}
    if plan.get("extra"):
        unstall(k)
        raw = RtuRaw(bus, "raw") if not tcp else None
        if tcp:
            cli = RawClient(w.net, ("127.0.0.1", 1502))
            if not cli.connect(3 * SEC):
                raise Violation("no connection", "counting run")
        for i, name in enumerate(plan["extra"]):
            unit, pdu, what = EXTRA[name]
            if tcp:
                cli.send(mbap(i + 1, unit, pdu))
            else:
                raw.send(rtu_frame(unit, pdu))
            k.sleep(100 * MS)
            names = ["modbus.Slave." + x for x in what] + ["modbus.Server.before_handle_request",
                                                            "modbus.Server.after_handle_request"]
            names += ["modbus.ModbusBlock.setitem"] if "setitem" in what else []
            names += ["modbus.Databank.on_error"] if "on_error" in what else []
            names += ["modbus_tcp.TcpServer.after_recv", "modbus_rtu.RtuServer.after_read"]
            if "answer" in what:
                names += ["modbus_tcp.TcpServer.before_send", "modbus_tcp.TcpServer.after_send",
                          "modbus_rtu.RtuServer.before_write", "modbus_rtu.RtuServer.after_write"]
            elif not tcp:
                # nothing was written
                more["modbus_rtu.RtuServer.before_write"] = more["modbus_rtu.RtuServer.after_write"] = None
            for nm in names:
                if more.get(nm, 0) is not None:
                    more[nm] = more.get(nm, 0) + 1
            k.probe("unanswered or refused requests counted")
        if tcp:
            more["modbus_tcp.TcpServer.on_connect"] = more["modbus_tcp.TcpServer.on_disconnect"] = 1
            cli.close()
            k.sleep(100 * MS)
    done = set()
    for ev, kind, c in counts:
        want = n
        if ev in done:
            want = 0
        elif ev in ("modbus_tcp.TcpServer.on_connect", "modbus_tcp.TcpServer.on_disconnect",
                    "modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_connect",
                    "modbus_tcp.TcpMaster.before_close", "modbus_tcp.TcpMaster.after_close"):
            want = 1
        elif "on_e" in ev or ev == "modbus.Databank.on_error":
            want = 0
        elif ev in ("modbus.Slave.handle_write_single_register_request", "modbus.ModbusBlock.setitem") \
                and "modbus.Slave.handle_request" in rep:
            want = 0
        elif ev == "modbus.Slave.handle_read_holding_registers_request" or ev == "modbus.Slave.on_handle_broadcast":
            want = 0
        if more.get(ev, 0) is None:
            continue
        want += more.get(ev, 0)
        if c != want:
            raise Violation("hook call count", "%s (%s) called %d times instead of %d for %d requests" % (
                ev, kind, c, want, n))
        if kind == "replace":
            done.add(ev)
    silently(server.stop)


def H_uninstall(H, plan):
    for e in sorted(set(h["ev"] for h in plan["hooks"])):
        H.uninstall_hook(e)


def storm(k, w, plan, tcp, bus):
    """requests while hooks raise: answers are not looked at"""
    bads = [b"\x03\x00", b"\x63", b"\x03\xff\xff\x00\x01", b"\x10\x00\x00\x00\x02\x04\x00"]

    def client(i):
        cli = None
        for n, v in enumerate(plan["reqs"]):
            pdu = p_w1(6, 1, v)
            if plan["bad"] and n % 2:
                pdu = bads[(n // 2) % len(bads)]
            if tcp:
                if cli is None or cli.eof or cli.rst:
                    if cli is not None:
                        cli.close()
                    cli = RawClient(w.net, ("127.0.0.1", 1502))
                    if not cli.connect(3 * SEC):
                        raise Violation("server stopped", "connection refused or not accepted while hooks raise")
                base = len(cli.rx)
                if plan["bad"] and n == 3:
                    cli.send(b"\x00\x01\x00\x00\x00\x00\x01")
                cli.send(mbap(n + 1, 1, pdu))
                cli.wait(lambda: cli.eof or cli.rst or split_mbap(cli.rx[base:])[0], 300 * MS)
            else:
                raw.send(rtu_frame(1, pdu))
                k.sleep(20 * MS)
            k.ops_done += 1
        if tcp and cli is not None:
            if plan["reqs"][0] % 2:
                cli.close()
            else:
                cli.abort()
    if not tcp:
        raw = RtuRaw(bus, "m")
    ts = [k.spawn(client, (i,), "C%d" % i, harness=True) for i in range(plan["clients"])]
    for t in ts:
        k.join(t)


def recover(k, w, tcp, bus, slave):
    """once the hooks are gone the server works"""
    k.sleep(1 * SEC if tcp else 50 * MS)
    pdu = p_w1(6, 5, 4242)
    if tcp:
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if not cli.connect(5 * SEC):
            raise Violation("server stopped", "no connection after a hook raised")
        resp = raw_request(k, cli, 77, 1, pdu, 5 * SEC)
    else:
        raw = RtuRaw(bus, "m2")
        mark = raw.mark()
        raw.send(rtu_frame(1, pdu))
        got = raw.collect(mark, 8, 1 * SEC)
        resp = got[1:-2] if rtu_ok(got) else got
    if resp != pdu or slave.get_values("r", 5, 1)[0] != 4242:
        raise Violation("server stopped", "answer after a hook raised: %s" % (short(resp),))
    k.ops_done += 1
