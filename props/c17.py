"""C17 no connection outlives its use on either side"""
import errno

from dst.kit import *

WHAT = ("a TcpServer with 1-9 clients which stay, idle for long, disconnect, reset, half-close and send garbage, and failing accepts; "
        "TCP and RTU-over-TCP masters with slaves that close, reset, time out, refuse, vanish and come back; every connection end is accounted for")
STALL = (0.2, 5)
RUNS = {"quick": 16000, "thorough": 400000}
STUBS = "raw TCP clients; scripted slaves for the masters"


def gen(rng, tier):
    g = Gen(rng)
    if rng.random() < 0.4:
        steps = []
        for _ in range(rng.randint(1, 10)):
            steps.append([rng.choice(["exec", "exec", "exec", "exec", "close", "open", "timeout"]),
                          rng.choice([0, 0, 1, 100, 1500]), rng.randint(1, 20)])
        script = []
        for _ in range(rng.randint(0, 8)):
            script.append([rng.choice(["ok", "silent", "half", "half_close", "half_reset", "close", "reset", "fin", "late_close",
                                       "garbage", "delay"]), rng.randint(0, 12), rng.choice([1, 30, 400])])
        return {"mode": "master", "kind": rng.choice(["tcp", "tcp", "rtuotcp"]), "timeout": rng.choice([0.05, 0.2, 1.0]),
                "steps": steps, "script": script, "threads": rng.choice([1, 1, 2, 3]),
                "refuse": [rng.choice(["", "refuse", "drop"]) for _ in range(rng.choice([0, 0, 1, 3]))],
                "windows": [[rng.choice(["down", "unreach"]), rng.choice([0, 10, 500, 2000]), rng.choice([10, 300, 3000]),
                             rng.random() < 0.5] for _ in range(rng.choice([0, 0, 1, 2]))],
                "net": dict(netcfg(rng), lat=rng.choice([10 * US, 500 * US, 4 * MS]), jitter=0),
                "del": rng.random() < 0.2}
    clients = []
    blocks = [["r", 3, 0, 20]]
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        good = rng.random() < 0.6
        steps = []
        for _ in range(rng.randint(0, 4)):
            pdu = g.pdu(blocks, (3, 6, 16, 22, 23), 0.1, 8)
            if good:
                # an unit without slave and the broadcast are not answered, and that is no reason to close
                f = mbap(rng.randrange(65536), rng.choice([0, 2]) if rng.random() < 0.12 else 1, pdu)
                cut = rng.randint(1, len(f) - 1) if rng.random() < 0.3 else 0
                steps.append([rng.choice([0, 0, 3, 200, 1200, 5000, 30000]), f.hex(), cut, rng.choice([5, 300, 800])])
            else:
                f = mbap(rng.randrange(65536), rng.choice([0, 1, 1, 2]), pdu)
                r = rng.random()
                if r < 0.4:
                    f = f[:rng.randint(1, len(f) - 1)]
                elif r < 0.6:
                    f = bytes(rng.randrange(256) for _ in range(rng.choice([1, 6, 7, 8, 30])))
                steps.append([rng.choice([0, 0, 3, 200, 1200]), f.hex(), 0, 0])
        end = rng.choice(["stay", "close", "close", "half"] if good else ["close", "reset", "reset", "half", "stay"])
        clients.append({"good": good, "start": rng.choice([0, 0, 1, 50, 2000]), "steps": steps, "end": end,
                        "read": good or rng.random() < 0.6})
    if rng.random() < 0.02:
        # a long session
        f = mbap(7, 1, p_read(3, 0, 1)).hex()
        clients = clients[:2] + [{"good": True, "start": 0, "steps": [[0, f, 0, 0]] * rng.choice([70, 140, 300]),
                                  "end": rng.choice(["stay", "close"]), "read": True}]
    net = netcfg(rng)
    net["cap"] = rng.choice([300, 65536, 65536])
    faults = []
    if rng.random() < 0.25:
        faults = [rng.choice(["ECONNABORTED", "EMFILE", "ENFILE", "ENOBUFS", "EINTR", "", ""]) for _ in range(rng.randint(1, 5))]
    return {"mode": "server", "clients": clients, "net": net, "accept": faults, "idle": rng.choice([0, 0, 10, 120]),
            "verbose": rng.random() < 0.1, "crowd": rng.choice([30, 70]) if rng.random() < 0.012 else 0,
            "raising": [h for h in ("on_error", "on_connect", "on_disconnect") if rng.random() < 0.4]
            if rng.random() < 0.2 else []}


def valid(plan):
    return plan["mode"] == "master" or len(plan["clients"]) > 0


def run(k, w, plan):
    if plan["mode"] == "master":
        return run_master(k, w, plan)
    server = w.modbus_tcp.TcpServer(port=1502)
    slave = setup_slave(w, server, 1, [["r", 3, 0, 20]])
    server.set_verbose(plan["verbose"])
    conn_calls, disc_calls = {}, {}
    by_addr = {}

    def raising(name):
        if name in plan["raising"]:
            k.fault("hook raises")
            raise ValueError("hook")

    def on_connect(args):
        a = tuple(args[2])
        conn_calls[a] = conn_calls.get(a, 0) + 1
        e = getattr(args[1], "_end", None)
        if e is None or e.conn.client_addr != a:
            raise Violation("on_connect arguments", "%r %r" % (args[1], a))
        raising("on_connect")

    def on_disconnect(args):
        e = getattr(args[1], "_end", None)
        if e is None:
            raise Violation("on_disconnect arguments", "%r" % (args[1],))
        a = e.conn.client_addr
        disc_calls[a] = disc_calls.get(a, 0) + 1
        c = by_addr.get(a)
        if c is not None and not c["over"]:
            raise Violation("on_disconnect for a connected client", "client %d" % c["i"])
        raising("on_disconnect")

    w.hooks.install_hook("modbus_tcp.TcpServer.on_connect", on_connect)
    w.hooks.install_hook("modbus_tcp.TcpServer.on_disconnect", on_disconnect)
    w.hooks.install_hook("modbus_tcp.TcpServer.on_error", lambda args: raising("on_error"))
    server.start()
    k.sleep(20 * MS)
    crowd = []
    for i in range(plan["crowd"]):
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if not cli.connect(120 * SEC):
            raise Violation("connection refused", "idle client %d errno %s" % (i, cli.err))
        by_addr[cli.end.conn.client_addr] = {"i": -1 - i, "over": False}
        crowd.append(cli)
    stalling(k)
    w.net.accept_faults = [getattr(errno, e) if e else 0 for e in plan["accept"]]
    nbad = sum(1 for c in plan["clients"] if not c["good"])
    state = []
    slack = 4 * SEC + 4 * SEC * nbad
    t_bad = [k.now]

    def client(i, spec):
        st = {"i": i, "over": False, "orderly": False, "cli": None, "t": None, "ok": False}
        state.append(st)
        k.sleep(spec["start"] * MS)
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if not cli.connect(120 * SEC):
            if spec["good"]:
                raise Violation("connection refused", "client %d errno %s" % (i, cli.err))
            return
        st["cli"] = cli
        st["conn"] = cli.end.conn
        by_addr[cli.end.conn.client_addr] = st
        cli.auto = spec["read"]
        clean = spec["good"]
        for pause, frame, cut, gap in spec["steps"]:
            k.sleep(pause * MS)
            f = bytes.fromhex(frame)
            if spec["good"]:
                base = len(cli.rx)
                if cut:
                    cli.send(f[:cut])
                    k.sleep(gap * MS)
                    cli.send(f[cut:])
                else:
                    cli.send(f)
                lim = k.now + 5 * SEC + 4 * SEC * nbad + 2 * SEC * len(plan["clients"])
                if f[6] != 1:
                    k.sleep(30 * MS)
                    if cli.end.conn.excused:
                        return
                    if cli.eof or cli.rst:
                        raise Violation("connection of a behaving client closed", "client %d, request %s, which has no "
                                        "answer" % (i, frame))
                    if len(cli.rx) != base:
                        raise Violation("answer to a request for another unit", "client %d, request %s" % (i, frame))
                    k.probe("requests without answer")
                    continue
                s0 = k.stall_total
                while not split_mbap(cli.rx[base:])[0]:
                    if cli.eof or cli.rst:
                        if cli.end.conn.excused:
                            return
                        raise Violation("connection of a behaving client closed", "client %d, request %s" % (i, frame))
                    if k.now > lim + k.stall_total - s0 and k.now > t_bad[0] + 5 * SEC + 4 * SEC * nbad:
                        raise Violation("behaving client not answered", "client %d, request %s" % (i, frame))
                    cli.wait(lambda: cli.eof or cli.rst or split_mbap(cli.rx[base:])[0], 500 * MS)
                k.ops_done += 1
            else:
                cli.end.push(f)
                k.fault("hostile bytes")
                t_bad[0] = k.now
        if spec["end"] == "stay":
            st["ok"] = spec["good"]
            if not spec["good"]:
                data = b"".join(bytes.fromhex(x[1]) for x in spec["steps"])
                pos = 0
                while len(data) - pos >= 7:
                    n = max(7, 6 + int.from_bytes(data[pos + 4:pos + 6], "big"))
                    if len(data) - pos < n:
                        break
                    pos += n
                if pos < len(data):
                    # a request that is never completed is an error on the connection
                    st["partial"] = True
                    s0, t0 = k.stall_total, k.now
                    while k.now < t0 + slack + (k.stall_total - s0) and not cli.end.conn.s.closed:
                        k.sleep(500 * MS)
                    k.probe("requests never completed")
                    if not cli.end.conn.s.closed and not cli.end.conn.excused:
                        raise Violation("connection not closed by the server", "client %d stopped in the middle of a "
                                        "request %.1f s ago" % (i, (k.now - t0) / 1e9))
                else:
                    k.sleep(2500 * MS)
                st["over"] = True
                cli.abort()
                t_bad[0] = k.now
            return
        if cli.end.conn.excused:
            return
        if spec["good"] and (cli.eof or cli.rst):
            raise Violation("connection of a behaving client closed", "client %d before its end" % i)
        k.sleep(1 * MS)
        st["over"] = True
        st["orderly"] = spec["good"]
        k.fault("client " + spec["end"])
        if spec["end"] == "close":
            cli.close()
        elif spec["end"] == "half":
            cli.half_close()
        else:
            cli.abort()
        st["t"] = k.now
        if not spec["good"]:
            t_bad[0] = k.now

    ts = [k.spawn(client, (i, c), "C%d" % i, harness=True) for i, c in enumerate(plan["clients"])]
    for t in ts:
        k.join(t)
    k.sleep(slack)
    if plan["idle"]:
        k.sleep(plan["idle"] * SEC)
    s0 = k.stall_total
    k.sleep(1 * SEC)
    while k.stall_total != s0:
        s0 = k.stall_total
        k.sleep(1 * SEC)
    for st in state:
        if st["cli"] is None:
            continue
        conn = st["conn"]
        a = conn.client_addr
        if conn.excused:
            continue
        n, d = conn_calls.get(a, 0), disc_calls.get(a, 0)
        if n != 1:
            raise Violation("on_connect call count", "client %d: %d calls" % (st["i"], n))
        if d > 1 or (st["orderly"] and d != 1):
            raise Violation("on_disconnect call count", "client %d, orderly %s: %d calls" % (st["i"], st["orderly"], d))
        if st["over"] and not conn.s.closed:
            raise Violation("connection not closed by the server", "client %d, which ended %.1f s ago" % (
                st["i"], (k.now - (st["t"] or t_bad[0])) / 1e9))
        if st["ok"]:
            cli = st["cli"]
            if conn.s.closed or cli.eof or cli.rst:
                raise Violation("connection of a behaving client closed", "client %d" % st["i"])
            resp = raw_request(k, cli, 9, 1, p_read(3, 0, 2), 5 * SEC)
            if resp is None or resp[:2] != b"\x03\x04":
                raise Violation("behaving client not answered", "client %d at the end: %s" % (st["i"], short(resp)))
            k.ops_done += 1
    for i, cli in enumerate(crowd):
        if cli.end.conn.excused:
            continue
        resp = raw_request(k, cli, 9, 1, p_read(3, 0, 2), 5 * SEC)
        if resp is None or resp[:2] != b"\x03\x04":
            raise Violation("behaving client not answered", "idle client %d at the end: %s" % (i, short(resp)))
    extra = [a for a in conn_calls if a not in by_addr]
    for a in extra:
        raise Violation("on_connect call count", "call for %r which no client owns" % (a,))
    dl = Deadline(k, "stop", 10 * SEC, "stop did not return")
    server.stop()
    dl.end()
    for conn in w.net.conns:
        if not conn.s.closed:
            raise Violation("connection open after stop", "%r" % (conn.client_addr,))
    if w.net.open_sockets():
        raise Violation("sockets open after stop", "%r" % (w.net.open_sockets(),))
    for a, d in disc_calls.items():
        if d > 1:
            raise Violation("on_disconnect call count", "%r: %d calls" % (a, d))
    k.probe("connections", len(state))


def run_master(k, w, plan):
    framing = "tcp" if plan["kind"] == "tcp" else "rtu"
    stub = Stub(k, None, w.net, 1502, framing)
    script = list(plan["script"])

    def respond(link, frame):
        if framing == "tcp":
            pdu = frame[7:]
        else:
            pdu = frame[1:-2]
        n = int.from_bytes(pdu[3:5], "big")
        body = bytes((3, 2 * n)) + b"\x12\x34" * n
        good = mbap(int.from_bytes(frame[:2], "big"), frame[6], body) if framing == "tcp" else rtu_frame(frame[0], body)
        b, x, ms = script.pop(0) if script else ("ok", 0, 0)
        if b != "ok":
            k.fault("slave " + b)
        part = good[:x % len(good)]
        if b in ("ok", "fin", "late_close"):
            link.send(good)
            if b != "ok":
                link.close(False, (100 * US if b == "fin" else ms * MS))
        elif b in ("half", "half_close", "half_reset"):
            link.send(part)
            if b != "half":
                link.close(b == "half_reset", 200 * US)
        elif b in ("close", "reset"):
            link.close(b == "reset")
        elif b == "garbage":
            link.send(bytes((j * 91 + x) & 255 for j in range(x + 1)))
        elif b == "delay":
            link.send(good, ms * MS)

    stub.respond = respond
    stub.up()
    w.net.connect_faults = list(plan["refuse"])
    cls = w.modbus_tcp.TcpMaster if plan["kind"] == "tcp" else w.modbus_rtu_over_tcp.RtuOverTcpMaster
    box = [cls("127.0.0.1", 1502, plan["timeout"])]

    def live():
        return [c for c in w.net.conns if not c.c.closed and not c.tok["cancelled"]]

    def on_conn(conn):
        # an end is closed as soon as the package closes its socket
        others = [c for c in live() if c is not conn]
        if others:
            k.fail("two connections of one master", "connection %d opened while %s open" % (
                conn.cid, [c.cid for c in others]))

    w.net.on_conn.append(on_conn)

    opened = [0]
    w.net.on_conn.append(lambda conn: opened.__setitem__(0, opened[0] + 1))
    failed = [0]
    closes = [1]

    def window(kind, at, dur, rst):
        k.sleep(at * MS)
        if kind == "unreach":
            k.fault("host unreachable")
            w.net.unreachable.add(1502)
            k.sleep(dur * MS)
            w.net.unreachable.discard(1502)
        else:
            k.fault("slave down")
            stub.down(rst)
            k.sleep(dur * MS)
            stub.up()

    def body(steps):
        for what, pause, n in steps:
            k.sleep(pause * MS)
            m = box[0]
            if what == "exec":
                res, exc = call(m.execute, 1, 3, 0, n)
                if exc is None:
                    k.ops_done += 1
                else:
                    failed[0] += 1
                    k.probe("call failed")
            elif plan["threads"] > 1:
                # opening and closing at the same time as a request in progress is not claimed
                continue
            elif what == "close":
                closes[0] += 1
                silently(m.close)
                check("close()")
            elif what == "open":
                silently(m.open)
            else:
                silently(m.set_timeout, plan["timeout"])
            if len(live()) > 1:
                raise Violation("two connections of one master", "after %s" % what)
            socks = w.net.open_sockets()
            if len(socks) > 1:
                raise Violation("sockets left open by the master", "after %s: %r" % (what, socks))

    def check(what):
        if live():
            raise Violation("connection open after close", "%s: %s" % (what, [c.cid for c in live()]))
        if w.net.open_sockets():
            raise Violation("socket open after close", "%s: %r" % (what, w.net.open_sockets()))

    ws = [k.spawn(window, tuple(x), "W%d" % i, harness=True) for i, x in enumerate(plan["windows"])]
    per = [plan["steps"][i::plan["threads"]] for i in range(plan["threads"])]
    ts = [k.spawn(body, (p,), "T%d" % i, harness=True) for i, p in enumerate(per)]
    for t in ts + ws:
        k.join(t)
    if not failed[0] and not plan["windows"] and not plan["refuse"] and opened[0] > closes[0] and \
            all(x[0] in ("ok", "delay") for x in plan["script"]):
        raise Violation("reconnected although nothing failed", "%d connections, %d expected" % (opened[0], closes[0]))
    if plan["del"]:
        box[0] = None
        k.probe("master dropped without close")
    else:
        box[0].close()
        check("final close()")
    k.ops_done += 1
