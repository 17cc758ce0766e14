"""C05 a faulty TCP client cannot disable the server or disturb other clients"""
from dst.kit import *

WHAT = ("1-3 well-behaved raw clients (also reconnecting) against one TcpServer together with 1-5 hostile clients: garbage, "
        "wrong lengths, partial requests, stalls, resets and closes at any byte, unread answers, failing accepts")
STALL = (0.2, 4)
RUNS = {"quick": 12000, "thorough": 200000}
KEEP = ("gblocks", "fblocks")

FBASE = 5000


def gen(rng, tier):
    g = Gen(rng)
    ngood = rng.choice([1, 1, 2, 3])
    goods = []
    gblocks = []
    for i in range(ngood):
        bl = [["g%d_%s" % (i, nm), t, 200 * i + off, rng.randint(1, 10)] for nm, t, off in
              (("r", 3, 0), ("c", 1, 20), ("i", 4, 40)) if t == 3 or rng.random() < 0.6]
        gblocks.append(bl)
        types = set(b[1] for b in bl)
        fcs = (3, 6, 7, 16, 22, 23) + ((1, 5, 15) if 1 in types else ()) + ((4,) if 4 in types else ())
        reqs = []
        for _ in range(rng.randint(2, 8)):
            pdu = g.pdu(bl, fcs, 0, 10) if rng.random() < 0.93 else p_read(rng.choice((1, 2, 3, 4)), 9999, 5)
            reqs.append([rng.choice([0, 0, 1, 20, 300, 1500]), rng.choice([1, 1, 2]),
                         pdu.hex(), rng.random() < 0.12])
        goods.append({"start": rng.choice([0, 0, 5, 500, 3000]), "reqs": reqs})
    fblocks = [["fr", 3, FBASE, 12], ["fc", 1, FBASE, 20]]
    bads = []
    for _ in range(rng.randint(1, 5)):
        steps = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            pdu = g.pdu(fblocks, rng.choice([(16, 6, 22, 23), FCS]), 0.04, 12)
            unit = rng.choice([1, 1, 2, 0, 77])
            frame = mbap(rng.randrange(65536), unit, pdu)
            if r < 0.15:
                frame = bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 7, 12, 40, 300])))
            elif r < 0.4:
                frame = frame[:rng.randint(1, len(frame) - 1)]
            elif r < 0.6:
                frame = mbap(rng.randrange(65536), unit, pdu, rng.choice([0, 0, 5]),
                             rng.choice([0, 1, 2, len(pdu), len(pdu) + 2, 255, 300, 65535, rng.randint(1, len(pdu))]))
            elif r < 0.7:
                frame = mbap(1, unit, g.malformed(pdu)[:240])
            elif r < 0.8:
                frame = frame * rng.choice([2, 5, 30])
            steps.append(["send", frame.hex()])
            r = rng.random()
            if r < 0.4:
                steps.append(["sleep", rng.choice([1, 50, 700, 1100, 2500])])
            elif r < 0.5 and steps[-1][0] == "send" and len(frame) < 30:
                # byte by byte with long pauses
                steps.pop()
                p = rng.randint(1, len(frame) - 1) if len(frame) > 1 else 1
                steps += [["send", frame[:p].hex()], ["sleep", rng.choice([300, 900, 980])], ["send", frame[p:].hex()]]
        end = rng.choice(["reset", "close", "half", "stay", "reset", "close"])
        bads.append({"start": rng.choice([0, 0, 10, 600, 1500]), "steps": steps, "end": end,
                     "read": rng.choice([True, True, False, "slow"])})
    for _ in range(rng.choice([0] * 9 + [1] * 3 + [3] * 3 + [12] * 3 + [40])):
        bads.append({"start": rng.choice([0, 5, 300]), "steps": [], "end": rng.choice(["reset", "close", "stay", "half"]),
                     "read": True})
    crowd = rng.random() < 0.006
    if crowd:
        bads = [{"start": i // 6 * 20, "steps": [], "end": "stay", "read": True} for i in range(rng.choice([70, 110]))]
    net = netcfg(rng)
    net["cap"] = rng.choice([32, 300, 4000, 65536])
    if rng.random() < 0.3:
        net["short_writes"] = rng.choice([0.3, 0.8])
    faults = []
    if rng.random() < 0.4:
        faults = [rng.choice(["ECONNABORTED", "EMFILE", "ENFILE", "ENOBUFS", "EINTR", "EPERM", "", ""])
                  for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.15 and not crowd:
        net["fd_base"] = rng.choice([1016, 1019, 1021, 1022]) - ngood       # room for the good ones
        for b in bads:
            if b["end"] in ("stay", "half"):
                b["end"] = "close"
    floods = []
    if rng.random() < 0.03:
        # clients which never pause: every request of theirs is complete and valid
        floods = [rng.choice([2, 5, 20]) for _ in range(rng.choice([1, 1, 2, 4]))]
        net = {"lat": rng.choice([10, 100]) * US}
        bads = []
        faults = []
        for sp in goods:
            sp["start"] = rng.choice([0, 3, 10])
            for r in sp["reqs"]:
                r[0] = rng.choice([0, 0, 1, 5])
    return {"goods": goods, "gblocks": gblocks, "fblocks": fblocks, "bads": bads, "net": net, "accept": faults,
            "floods": floods, "verbose": rng.random() < 0.2}


def frames_of(data):
    """complete frames a server can find in a byte stream whose client does not resynchronise"""
    out = []
    pos = 0
    while len(data) - pos >= 7:
        length = int.from_bytes(data[pos + 4:pos + 6], "big")
        total = max(7, 6 + length)
        if len(data) - pos < total:
            break
        if length >= 2:
            out.append((data[pos + 6], data[pos + 7:pos + total]))
        pos += total
    return out


def valid(plan):
    """the descriptors suffice for the good clients and hostile frames must not be valid writes to the blocks of well-behaved clients"""
    good = [b for bl in plan["gblocks"] for b in bl]
    lay = Layout(good + plan["fblocks"])
    ng = sum(b[3] for b in good)
    for b in plan["bads"]:
        data = b"".join(bytes.fromhex(s[1]) for s in b["steps"] if s[0] == "send")
        for unit, pdu in frames_of(data):
            for fill in (0, 1, 0x5555):
                s0 = (fill,) * lay.size
                if lay.request(s0, pdu)[3][:ng] != s0[:ng]:
                    return False
    return True


def run(k, w, plan):
    import errno
    if not valid(plan) or 1023 - plan["net"].get("fd_base", 3) < len(plan["goods"]):
        k.probe("plan skipped")
        return
    allb = [b for bl in plan["gblocks"] for b in bl] + plan["fblocks"]
    server = w.modbus_tcp.TcpServer(port=1502)
    slaves = {u: setup_slave(w, server, u, allb) for u in (1, 2)}
    server.set_verbose(plan["verbose"])
    server.start()
    k.sleep(20 * MS)
    stalling(k)
    w.net.accept_faults = [getattr(errno, e) if e else 0 for e in plan["accept"]]
    last_fault = [k.now]
    bad_done = [0]
    nbad = len(plan["bads"])
    t_bad_end = [k.now]
    allowed = {}
    flay = Layout(allb)
    slack = 3 * SEC + nbad * 3 * SEC

    def bad(i, spec):
        k.sleep(spec["start"] * MS)
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if cli.connect(60 * SEC):
            cli.auto = spec["read"] is True
            if not cli.auto:
                k.fault("answers not read")
            for st in spec["steps"]:
                if st[0] == "sleep":
                    k.sleep(st[1] * MS)
                else:
                    data = bytes.fromhex(st[1])
                    end = k.now + 1 * SEC
                    while data and k.now < end:
                        e = cli.end
                        if e.closed or e.broken or e.error is not None or e.reset:
                            break
                        data = data[e.push(data):]
                        k.sleep(1 * MS)
                        if spec["read"] == "slow":
                            cli.read_some(3)
                    if data:
                        break          # the stream stays a prefix of the planned one
            k.fault("hostile client: " + spec["end"])
            if spec["end"] == "reset":
                cli.abort()
            elif spec["end"] == "close":
                cli.close()
            elif spec["end"] == "half":
                cli.half_close()
        t_bad_end[0] = k.now
        bad_done[0] += 1

    flooded = [0] * len(plan.get("floods", ()))
    ending = [False]

    def flood(i, depth):
        """a client which always has requests waiting"""
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if not cli.connect(5 * SEC):
            raise Violation("no connection accepted", "flooding client %d" % i)
        frame = mbap(i, 1, p_read(3, FBASE, 3))
        size = 9 + 6
        sent = seen = 0
        while not ending[0] and flooded[i] < 3000:
            while sent - seen < depth:
                cli.send(frame)
                sent += 1
            n = len(cli.rx)
            cli.wait(lambda: len(cli.rx) > n or cli.eof or cli.rst, 20 * SEC)
            if len(cli.rx) == n or cli.eof or cli.rst:
                raise Violation("well-behaved client not served", "flooding client %d" % i)
            seen += (len(cli.rx) - seen * size) // size
            flooded[i] = seen
        k.probe("requests of flooding clients", seen)
        cli.close()

    def await_answer(c, what, cond, excuse):
        """wait for cond within the promised time"""
        t0, s0 = k.now, k.stall_total
        f0 = list(flooded)
        while not cond():
            if excuse():
                return False
            if any(b - a > 150 for a, b in zip(f0, flooded)):
                raise Violation("well-behaved client not served", "%s not done while another client got %s answers" % (
                    what, [b - a for a, b in zip(f0, flooded)]))
            if bad_done[0] == nbad:
                end = max(t0, t_bad_end[0]) + slack + (k.stall_total - s0)
                if k.now > end:
                    raise Violation("well-behaved client not served",
                                    "%s not done within %.1f s after all faulty clients ended" % (what, slack / 1e9))
            c.wait(lambda: cond() or excuse(), 250 * MS if not flooded or ending[0] else 5 * MS)
        return True

    def good(i, spec):
        lay = Layout(plan["gblocks"][i])
        state = {u: lay.initial() for u in (1, 2)}
        k.sleep(spec["start"] * MS)
        tid = [i * 1000]
        cli = [None]

        def connect():
            t0, s0 = k.now, k.stall_total
            while True:
                c = RawClient(w.net, ("127.0.0.1", 1502))
                if c.connect(1500 * MS):
                    cli[0] = c
                    return
                if c.err not in (errno.ETIMEDOUT,):
                    raise Violation("connection refused", "client %d: errno %s" % (i, c.err))
                if bad_done[0] == nbad and k.now > max(t0, t_bad_end[0]) + slack + k.stall_total - s0:
                    raise Violation("no connection accepted", "client %d" % i)

        n = 0
        tries = 0
        while n < len(spec["reqs"]):
            pause, unit, hexpdu, again = spec["reqs"][n]
            pdu = bytes.fromhex(hexpdu)
            if again and cli[0] is not None and tries == 0:
                cli[0].close()
                cli[0] = None
            if cli[0] is None:
                connect()
            k.sleep(pause * MS)
            c = cli[0]
            tid[0] += 1
            base = len(c.rx)
            sent = c.send(mbap(tid[0], unit, pdu))
            excused = lambda: (c.eof or c.rst) and c.end.conn.excused
            ok = sent and await_answer(c, "client %d request %s" % (i, hexpdu),
                                       lambda: c.eof or c.rst or len(split_mbap(c.rx[base:])[0]) > 0, excused)
            if (not ok or not split_mbap(c.rx[base:])[0]):
                if c.end.conn.excused:
                    k.probe("retry after a failed accept")
                    cli[0] = None
                    tries += 1
                    if tries > 400:
                        raise Violation("no connection accepted", "client %d" % i)
                    k.sleep(50 * MS)
                    continue
                raise Violation("well-behaved client disconnected", "client %d, request %s" % (i, hexpdu))
            frames, rest = split_mbap(c.rx[base:])
            f = frames[0]
            if len(frames) > 1 or rest or f[0] != tid[0] or f[1] != 0 or f[3] != unit:
                raise Violation("wrong answer", "client %d request tid %d unit %d %s: %s" % (
                    i, tid[0], unit, hexpdu, short(c.rx[base:])))
            new = lay.accept(state[unit], pdu, f[4])
            if not new:
                raise Violation("wrong answer", "client %d request %s answer %s state %s" % (
                    i, hexpdu, short(f[4]), state[unit]))
            state[unit] = new[0]
            k.ops_done += 1
            n += 1
            tries = 0
        for u in (1, 2):
            got = dump(slaves[u], plan["gblocks"][i])
            if got != state[u]:
                raise Violation("contents changed by faulty traffic", "unit %d of client %d: %s instead of %s" % (
                    u, i, got, state[u]))

    ts = [k.spawn(bad, (i, b), "B%d" % i, harness=True) for i, b in enumerate(plan["bads"])]
    ts += [k.spawn(good, (i, b), "G%d" % i, harness=True) for i, b in enumerate(plan["goods"])]
    fs = [k.spawn(flood, (i, d), "F%d" % i, harness=True) for i, d in enumerate(plan.get("floods", ()))]
    for t in ts:
        k.join(t)
    ending[0] = True
    for t in fs:
        k.join(t)
    # the server still accepts and serves
    k.sleep(slack)
    for n in range(60):
        cli = RawClient(w.net, ("127.0.0.1", 1502))
        if not cli.connect(5 * SEC):
            raise Violation("no connection accepted", "after all faulty clients ended")
        ans = raw_request(k, cli, 7, 1, p_read(3, FBASE, 12), 5 * SEC)
        if ans is None and cli.end.conn.excused:
            k.sleep(100 * MS)
            continue
        break
    if ans is None or len(ans) != 26:
        raise Violation("well-behaved client not served", "final request answered with %r" % (ans,))
    # what the faulty clients could have written
    can = {"fr": set([0]), "fc": set([0])}
    masks = False
    for b in plan["bads"]:
        data = b"".join(bytes.fromhex(s[1]) for s in b["steps"] if s[0] == "send")
        for unit, pdu in frames_of(data):
            kind, resps, codes, new = flay.request(flay.initial(), pdu)
            if pdu[0] == 22 and len(pdu) >= 7:
                masks = True
            for nm, t, st, n in plan["fblocks"]:
                can[nm] |= set(flay.get_values(new, nm, st, n))
    for u in (1, 2):
        for nm, t, st, n in plan["fblocks"]:
            for v in slaves[u].get_values(nm, st, n):
                if v not in can[nm] and not (masks and nm == "fr"):
                    raise Violation("contents changed by an invalid request", "unit %d %s holds %d" % (u, nm, v))
