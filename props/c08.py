"""C08 master calls finish in bounded time and the master recovers by itself"""
import errno

from dst.kit import *

WHAT = ("1-3 TCP, RTU-over-TCP and RTU masters used by 1-3 threads against scripted slaves that stay silent, answer in part, "
        "trickle, close or reset at any byte, stop reading, refuse or drop connections, and against a real TcpServer "
        "that is restarted; then recovery on healed slaves")
STALL = (0.2, 4)
RUNS = {"quick": 20000, "thorough": 400000}


def gen(rng, tier):
    g = Gen(rng)
    masters = []
    for m in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(["tcp", "tcp", "rtuotcp", "rtu", "real"])
        ms = {"kind": kind, "timeout": rng.choice([0.05, 0.2, 0.5, 1.0, 5.0]), "script": [], "windows": [],
              "conn": [], "faults": {}}
        if kind == "rtu":
            ms["timeout"] = rng.choice([0.1, 0.2, 0.5])
            ms["sw"] = rng.random() < 0.25
            ms["echo"] = rng.choice([None] * 6 + ["yes", "yes", "lost"])
            if rng.random() < 0.15:
                ms["timeout"] = 0.003            # the default of a fast line: only the bound of the calls is checked
            ms["opened"] = rng.random() < 0.6
            for op in ("open", "read", "write", "flush_in", "flush"):
                if rng.random() < 0.15:
                    ms["faults"][op] = [rng.choice([0, 0, 0, 1]) for _ in range(rng.randint(1, 8))]
        if kind in ("tcp", "rtuotcp", "rtu"):
            for _ in range(rng.randint(0, 8)):
                beh = ["ok", "silent", "half", "delay", "garbage", "extra"]
                if kind != "rtu":
                    beh += ["half_close", "half_reset", "close", "reset", "trickle", "pause", "fin"]
                ms["script"].append([rng.choice(beh), rng.randint(0, 14), rng.choice([1, 30, 300, 1500, 6000])])
        if kind in ("tcp", "rtuotcp"):
            ms["conn"] = [rng.choice(["", "", "close", "reset", "close_later"]) for _ in range(rng.choice([0, 0, 1, 3]))]
        if kind != "rtu":
            for _ in range(rng.choice([0, 0, 1, 2])):
                ms["windows"].append([rng.choice(["down", "down", "unreach"]), rng.choice([0, 1, 100, 900, 3000]),
                                      rng.choice([5, 100, 1500, 8000]), rng.random() < 0.5])
            ms["refuse"] = [rng.choice(["", "refuse", "drop"]) for _ in range(rng.choice([0, 0, 1, 2]))]
        if kind != "rtu":
            ms["change"] = rng.choice([""] * 6 + ["before", "open"])
        masters.append(ms)
    threads = []
    for t in range(rng.choice([1, 1, 2, 3]) if len(masters) == 1 else rng.randint(len(masters), 3)):
        calls = []
        for _ in range(rng.randint(1, 6)):
            calls.append([rng.choice([0, 0, 5, 100, 1000, 2500]), t % len(masters) if rng.random() < 0.8 else
                          rng.randrange(len(masters)), rng.choice([1, 3, 3, 6, 16]), rng.randrange(100),
                          rng.randint(1, 20)])
        threads.append(calls)
    net = netcfg(rng, 0.5)
    net["jitter"] = min(net.get("jitter", 0), 5 * MS)
    net["lat"] = min(net["lat"], 2 * MS)
    if rng.random() < 0.25:
        net["cap"] = rng.choice([8, 16, 40])
        net["cap_down"] = 65536
    return {"masters": masters, "threads": threads, "net": net, "close": rng.random() < 0.15,
            "clock": clockcfg(rng, 0.15)}


def honest(pdu):
    fc = pdu[0]
    if fc == 1:
        a, n = int.from_bytes(pdu[1:3], "big"), int.from_bytes(pdu[3:5], "big")
        body = pack_bits([(a + i) % 3 == 0 for i in range(n)])
        return bytes((1, len(body))) + body
    if fc == 3:
        a, n = int.from_bytes(pdu[1:3], "big"), int.from_bytes(pdu[3:5], "big")
        return bytes((3, 2 * n)) + b"".join(reg(a + i).to_bytes(2, "big") for i in range(n))
    if fc == 16:
        return pdu[:5]
    return pdu


def reg(a):
    return (a * 2731 + 17) & 0xFFFF


class Peer(object):
    pass


def run(k, w, plan):
    run_clock(k, plan["clock"])
    peers = []
    healed = [False]
    nthreads = len(plan["threads"])
    for i, ms in enumerate(plan["masters"]):
        p = Peer()
        p.ms = ms
        p.port = 1502 + i
        p.script = list(ms["script"])
        p.kind = ms["kind"]
        p.sent = []                  # (time, n)
        if ms["kind"] == "rtu":
            p.bus = Bus(k, 38400)
            p.stub = Stub(k, None, bus=p.bus)
            p.ser = FakeSerial(p.bus.endpoint("m"), 38400, opened=ms["opened"])
            p.ser.faults = {op: list(v) for op, v in ms["faults"].items()}
            p.master = w.modbus_rtu.RtuMaster(p.ser)
            p.master.set_timeout(ms["timeout"], ms["sw"])
            if ms.get("echo"):
                # the adapter gives the sent bytes back, or does not do so for a while
                p.master.handle_local_echo = True
                p.ser._ep.echo = ms["echo"] == "yes"
                if ms["echo"] == "lost":
                    k.fault("echo missing")
        else:
            cls = w.modbus_rtu_over_tcp.RtuOverTcpMaster if ms["kind"] == "rtuotcp" else w.modbus_tcp.TcpMaster
            if ms.get("change"):
                # the timeout is changed before the first request
                p.master = cls("127.0.0.1", p.port, 60.0)
            else:
                p.master = cls("127.0.0.1", p.port, ms["timeout"])
        if ms["kind"] == "real":
            p.server = w.modbus_tcp.TcpServer(port=p.port)
            s = p.server.add_slave(1)
            s.add_block("r", 3, 0, 130)
            s.add_block("c", 1, 0, 130)
            s.set_values("r", 0, [reg(a) for a in range(130)])
            s.set_values("c", 0, [1 if a % 3 == 0 else 0 for a in range(130)])
            p.server.start()
        elif ms["kind"] != "rtu":
            p.stub = Stub(k, None, w.net, p.port, "tcp" if ms["kind"] == "tcp" else "rtu")
            p.conn = list(ms["conn"])
            p.stub.up()

            def on_connect(link, p=p):
                c = p.conn.pop(0) if p.conn and not healed[0] else ""
                if c:
                    k.fault("connection " + c)
                if c == "close":
                    link.close()
                elif c == "reset":
                    link.close(True)
                elif c == "close_later":
                    link.close(False, 3 * MS)
            p.stub.on_connect = on_connect
        peers.append(p)
    k.sleep(10 * MS)
    for p in peers:
        if p.ms.get("change"):
            k.probe("timeout changed")
            if p.ms["change"] == "open":
                silently(p.master.open)
            p.master.set_timeout(p.ms["timeout"])

    def responder(p):
        def respond(link, frame):
            if p.stub.framing == "tcp":
                tid, unit, pdu = int.from_bytes(frame[:2], "big"), frame[6], frame[7:]
                good = mbap(tid, unit, honest(pdu)) if pdu else b""
            else:
                if not rtu_ok(frame):
                    k.probe("damaged request")
                    return
                good = rtu_frame(frame[0], honest(frame[1:-2]))
            b, n, ms_ = ("ok", 0, 0) if healed[0] or not p.script else p.script.pop(0)
            if b != "ok":
                k.fault("slave " + b)
            part = good[:n % max(1, len(good))]
            out = 0
            if b == "ok":
                if p.kind == "rtu":
                    link.send(good, 2 * MS)
                else:
                    link.send(good)
                out = len(good)
            elif b in ("half", "half_close", "half_reset"):
                link.send(part)
                if b != "half":
                    link.close(b == "half_reset", 200 * US)
                out = len(part)
            elif b in ("close", "reset"):
                link.close(b == "reset")
            elif b == "fin":
                link.send(good)
                link.close(False, 100 * US)
                out = len(good)
            elif b == "delay":
                link.send(good, ms_ * MS)
                out = len(good)
            elif b == "garbage":
                link.send(bytes((x * 37 + n) & 0xFF for x in range(n + 1)))
                out = n + 1
            elif b == "extra":
                link.send(good + part)
                out = len(good) + n
            elif b == "trickle":
                step = min(ms_, 400)
                for j in range(len(part)):
                    link.send(part[j:j + 1], (j + 1) * step * MS)
                out = len(part)
            elif b == "pause":
                if link.end is not None:
                    link.paused = True
                    k.after(ms_ * MS, link.resume)
                    p.until = max(p.until, k.now + ms_ * MS)
            p.sent.append((k.now, out))
        return respond

    for p in peers:
        p.until = k.now
        if p.kind != "real":
            p.stub.respond = responder(p)
    for ms in plan["masters"]:
        w.net.connect_faults += [f for f in ms.get("refuse", [])]

    def window(p, kind, at, dur, rst):
        k.sleep(at * MS)
        if kind == "unreach":
            k.fault("host unreachable")
            w.net.unreachable.add(p.port)
            k.sleep(dur * MS)
            w.net.unreachable.discard(p.port)
        elif p.kind == "real":
            k.fault("server restart")
            p.server.stop()
            k.sleep(dur * MS)
            p.server.start()
        else:
            k.fault("slave down")
            p.stub.down(rst)
            k.sleep(dur * MS)
            p.stub.up()

    def windows(p):
        for wd in p.ms["windows"]:
            window(p, *wd)
        for l in (p.stub.links if p.kind != "real" else ()):
            pass

    def limit_of(p, t0, others):
        """promised bound in ns"""
        tot = 2 * SEC
        for q in others:
            to = int(q.ms["timeout"] * SEC)
            nb = sum(n for t, n in q.sent if t >= t0 - 20 * SEC) + (40 if q.kind == "real" else 0)
            tot += to * (5 + nb)
            if q.kind == "rtu":
                tot += 100 * MS
        return tot

    def do(p, fc, addr, n, what):
        """one call; (result, exception)"""
        dl = Deadline(k, "execute (%s, %s)" % (p.kind, what),
                      sum(int(q.ms["timeout"] * SEC) for q in peers) * 400 * nthreads + 100 * SEC, "call does not end")
        t0, s0 = k.now, k.stall_total
        if fc in (1, 3):
            res = call(p.master.execute, 1, fc, addr, n)
        elif fc == 6:
            res = call(p.master.execute, 1, 6, addr, output_value=reg(addr))
        else:
            res = call(p.master.execute, 1, 16, addr, output_value=[reg(addr + j) for j in range(n)])
        dl.end()
        took = k.now - t0 - (k.stall_total - s0)
        lim = limit_of(p, t0, peers * nthreads if nthreads > 1 else [p])
        if took > lim:
            raise Violation("call took too long", "%s master, timeout %s s, %s: %.3f s (bound %.3f s), result %s" % (
                p.kind, p.ms["timeout"], what, took / 1e9, lim / 1e9, short(res, 200)))
        k.ops_done += 1
        if res[1] is not None:
            k.probe("call failed")
            return res
        if fc == 1:
            want = tuple(1 if (addr + j) % 3 == 0 else 0 for j in range(n))
        elif fc == 3:
            want = tuple(reg(addr + j) for j in range(n))
        elif fc == 6:
            want = (addr, reg(addr))
        else:
            want = (addr, n)
        if tuple(res[0]) != want:
            # a half answer followed by a late one may look like a frame: C03 checks well-behaved framing
            if p.kind == "real" or healed[0]:
                raise Violation("wrong result", "%s fc %d addr %d: %s instead of %s" % (
                    p.kind, fc, addr, short(res[0]), short(want)))
            k.probe("result of a late or malformed answer")
        return res

    def thread(calls):
        for gap, m, fc, addr, n in calls:
            k.sleep(gap * MS)
            do(peers[m % len(peers)], fc, addr, n, "during faults")
            if plan["close"] and addr % 4 == 0:
                p = peers[m % len(peers)]
                if p.kind == "rtu" and addr % 8 == 0:
                    # somebody else closed the port before (it may be shared)
                    p.ser.close()
                _, exc = call(p.master.close)

    stalling(k)
    ts = [k.spawn(windows, (p,), "W%d" % i, harness=True) for i, p in enumerate(peers)]
    ts += [k.spawn(thread, (c,), "T%d" % i, harness=True) for i, c in enumerate(plan["threads"])]
    for t in ts:
        k.join(t)
    # ------------------------------------------------ heal, become quiet
    unstall(k)
    healed[0] = True
    w.net.connect_faults[:] = []
    for p in peers:
        if p.kind == "rtu":
            p.ser.faults.clear()
            if p.ms.get("echo"):
                p.ser._ep.echo = True
        while p.kind != "real" and (p.stub.pending or k.now < p.until):
            k.sleep(50 * MS)
    k.sleep(500 * MS)
    saved = nthreads
    nthreads = 1
    for p in peers:
        if p.kind == "rtu":
            p.ser.faults.clear()
        first, exc1 = do(p, 3, 5, 4, "first after faults")
        for j in range(3 if p.ms["timeout"] > 0.01 else 0):
            res, exc = do(p, [3, 6, 1][j], 7 + j, 5, "recovery %d" % j)
            if exc is not None:
                raise Violation("no recovery", "%s master: request %d after the faults ended: %s: %s (first: %s)" % (
                    p.kind, j + 2, ename(exc), exc, exc1))
            k.sleep(20 * MS)
    # all threads at once
    nthreads = saved

    def again(i):
        p = peers[i % len(peers)]
        for j in range(2):
            res, exc = do(p, 3, 20 + i, 3, "all threads")
            if exc is not None and p.ms["timeout"] > 0.01:
                raise Violation("no recovery", "%s master, concurrent: %s: %s" % (p.kind, ename(exc), exc))
    ts = [k.spawn(again, (i,), "A%d" % i, harness=True) for i in range(max(nthreads, len(peers)))]
    for t in ts:
        k.join(t)
