"""C22 the pymodbus drop-in client transfers exactly the values of the slave"""
from dst.kit import *
from props.c12 import m_req

WHAT = ("1-3 PyModbusClientTCP objects, used by 1-3 threads, and raw Modbus clients read and write slave 1 of a TCP server over "
        "a segmenting, delaying network; out-of-range requests, the server closing connections, open/close/is_open")
STALL = (0.2, 4)
RUNS = {"quick": 8000, "thorough": 200000}
STUBS = "raw TCP clients"
PORT = 1502


def gen(rng, tier):
    g = Gen(rng)
    blocks = [["c", 1, rng.choice([0, 3]), rng.choice([4, 9, 20])], ["d", 2, 0, rng.choice([3, 8, 17])],
              ["h", 3, rng.choice([0, 100]), 6], ["i", 4, rng.choice([0, 5]), rng.choice([4, 12])]]
    if rng.random() < 0.1:
        # the largest readings
        blocks[rng.randrange(2)][3] = 2001
        blocks[3][3] = 126
    nclients = rng.choice([1, 1, 2, 3])
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            m = rng.choice(["ri", "ri", "rc", "rc", "rd", "rd", "wr", "wr", "wc", "wc", "api", "api"])
            t = {"ri": 4, "rc": 1, "rd": 2, "wr": 3, "wc": 1}.get(m) or rng.choice([2, 2, 4, 4, 1, 3])
            b = [x for x in blocks if x[1] == t][0]
            a = b[2] + rng.randrange(b[3])
            if b[3] > 100 and rng.random() < 0.7:
                a = b[2] + rng.choice([0, 0, 1])
                n = b[3] - 1
            n = rng.randint(1, b[2] + b[3] - a) if b[3] < 100 or rng.random() < 0.3 else b[2] + b[3] - a - rng.choice([0, 1, 1])
            n = max(n, 1)
            if rng.random() < 0.1:
                n, a = n + rng.choice([0, 1, 5]), a + rng.choice([0, 1, 40])
            vals = [g.val() if t > 2 else rng.randrange(2) for _ in range(n)]
            if m in ("wr", "wc"):
                vals = vals[:1]
            if m == "wc" and rng.random() < 0.3:
                vals = [rng.choice([0xFF00, 2, True, False, 255, 0x100])]
            if m in ("wr", "ri", "rc", "rd") and rng.random() < 0.06:
                # refused by the client or by the slave: nothing is written
                if m == "wr":
                    vals = [rng.choice([65536, 70000, -32769, -100000, "x", None, 2.5])]
                else:
                    n = rng.choice([0, 126, 2001, -1, 65536])
            ops.append({"m": m, "t": t, "b": b[0], "a": a, "n": n, "v": vals, "cl": rng.randrange(nclients),
                        "gap": rng.choice([0, 0, 0, 1, 20]), "def": rng.random() < 0.2})
        threads.append(ops)
    # the settings which are given: without them the client has those of a TCP master
    given = rng.choice(["hpt", "hpt", "hp", "h", "p", "pt", "ht", "t", ""]) if rng.random() < 0.5 else "hpt"
    return {"blocks": blocks, "given": given, "clients": [{"open": rng.random() < 0.6, "reopen": rng.random() < 0.2} for _ in range(nclients)],
            "threads": threads, "cut": rng.random() < 0.2, "dead": rng.random() < 0.2, "dead1": rng.random() < 0.2, "net": netcfg(rng, 0.3)}


def valid(plan):
    return True


def run(k, w, plan):
    given = plan.get("given", "hpt")
    port = PORT if "p" in given else 502
    server = w.modbus_tcp.TcpServer(port=port)
    slave = setup_slave(w, server, 1, plan["blocks"])
    state0 = tuple(sorted((b[0], b[1], b[2], b[3], (0,) * b[3]) for b in plan["blocks"]))
    start = {b[0]: b[2] for b in plan["blocks"]}
    hist = Hist(k)
    server.start()
    k.sleep(30 * MS)
    stalling(k)
    C = w.pymodbusclient.PyModbusClientTCP
    if given == "hpt":
        cls = [C("127.0.0.1", PORT, 5.0) for _ in plan["clients"]]
    else:
        settings = {"h": ("host", "127.0.0.1"), "p": ("port", PORT), "t": ("timeout", 5.0)}
        cls = [C(**dict(settings[x] for x in given)) for _ in plan["clients"]]
    opened = {}
    for c, spec in zip(cls, plan["clients"]):
        if c.is_open():
            raise Violation("open before open()", "")
        opened[id(c)] = spec["open"]
        if spec["open"]:
            if c.open() is not True or not c.is_open():
                raise Violation("open() failed", "%r %r" % (c.open(), c.is_open()))

    def body(ops):
        for o in ops:
            k.sleep(o["gap"] * MS)
            m, a, n = o["m"], o["a"], o["n"]
            op = hist.begin("%s %d %d" % (m, a, n))
            if m == "api":
                b = [x for x in plan["blocks"] if x[0] == o["b"]][0]
                a = b[2] + (a - b[2]) % b[3]
                v = o["v"][:b[2] + b[3] - a]
                slave.set_values(b[0], a, v)

                def step(st, b=b, a=a, v=v):
                    out = []
                    for x in st:
                        if x[0] == b[0]:
                            d = list(x[4])
                            d[a - x[2]:a - x[2] + len(v)] = v
                            x = x[:4] + (tuple(d),)
                        out.append(x)
                    return [tuple(out)]
                hist.end(op, step, " %s" % (v,))
                continue
            c = cls[o["cl"]]
            if m in ("ri", "rc", "rd"):
                fc = {"ri": 4, "rc": 1, "rd": 2}[m]
                fn = {"ri": c.read_input_registers, "rc": c.read_coils, "rd": c.read_discrete_inputs}[m]
                if o["def"]:
                    n = 1
                pdu = p_read(fc, a, n) if 0 <= n <= 65535 else None
                res, exc = call(lambda: list(fn(a) if o["def"] else fn(a, n)))
            elif m == "wr":
                v = o["v"][0]
                pdu = p_w1(6, a, v) if isinstance(v, int) and -32768 <= v <= 65535 else None
                res, exc = call(c.write_single_register, a, o["v"][0])
            else:
                pdu = p_w1(5, a, 0xFF00 if o["v"][0] else 0)
                res, exc = call(c.write_single_coil, a, o["v"][0])
            if exc is None or hasattr(exc, "get_exception_code"):
                opened[id(c)] = True
            if exc is None:
                if pdu is None:
                    raise Violation("wrong value accepted", "%s(%d, %r)" % (m, a, o["v"][0]))
                if m in ("wr", "wc"):
                    resp = pdu
                else:
                    bad = len(res) != n or any(not isinstance(v, int) for v in res)
                    if bad or any(not 0 <= v <= (1 if fc < 3 else 0xFFFF) for v in res):
                        raise Violation("wrong result", "%s(%d, %d) = %s" % (fn.__name__, a, n, short(res)))
                    if fc < 3:
                        resp = bytes((fc, (n + 7) // 8)) + pack_bits(res)
                    else:
                        resp = bytes((fc, 2 * n)) + b"".join(v.to_bytes(2, "big") for v in res)
            elif hasattr(exc, "get_exception_code"):
                resp = bytes((pdu[0] | 0x80, exc.get_exception_code()))
            elif m == "wr" and (not isinstance(o["v"][0], int) or not -32768 <= o["v"][0] <= 65535):
                hist.ops.remove(op)
                if isinstance(exc, OSError):
                    raise Violation("call failed", "%s(%d, %r): %r" % (m, a, o["v"][0], exc))
                opened[id(c)] = opened[id(c)] or c.is_open()     # may have opened it
                continue
            elif m[0] == "r" and not 0 < n <= 65535 and not isinstance(exc, OSError):
                hist.ops.remove(op)
                opened[id(c)] = opened[id(c)] or c.is_open()
                continue
            else:
                raise Violation("call failed", "%s(%d, %d): %r" % (m, a, n, exc))
            hist.end(op, lambda st, pdu=pdu, resp=resp: m_req(st, pdu, resp), " -> %s" % resp.hex())

    ts = [k.spawn(body, (t,), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    for t in ts:
        k.join(t)
    if plan["cut"] and not plan["net"].get("jitter"):
        # every connection of the clients is cut: the next call may fail, the one after works
        k.fault("connections reset")
        for c in list(w.net.conns):
            if not c.s.closed:
                c.s.close(rst=True)
        k.sleep(300 * MS)
        for c in cls:
            was = c.is_open()
            if was is not opened[id(c)]:
                raise Violation("wrong is_open", "%r after a reset" % was)
            _, exc = call(lambda: list(c.read_coils(start["c"], 1)))
            if exc is None:
                opened[id(c)] = True
            if c.is_open() is not True and opened[id(c)]:
                raise Violation("wrong is_open", "False although never closed")
            res, exc = call(lambda: list(c.read_coils(start["c"], 1)))
            if exc is not None or len(res) != 1:
                raise Violation("no recovery after a reset", "%r %r" % (res, exc))
            opened[id(c)] = True
    if plan.get("dead1"):
        server.stop()
        k.fault("server gone")
        k.sleep(300 * MS)
        for c in cls:
            for fn in (c.read_coils, c.read_input_registers, c.read_discrete_inputs):
                res, exc = call(lambda: list(fn(0)))
                if exc is None:
                    raise Violation("result without a server", short(res))
                if c.is_open() is not opened[id(c)]:
                    raise Violation("wrong is_open", "%r after a failed call" % c.is_open())
    for c, spec in zip(cls, plan["clients"]):
        c.close()
        if c.is_open():
            raise Violation("open after close()", "")
        if spec["reopen"] and not plan.get("dead1"):
            res, exc = call(lambda: list(c.read_coils(start["c"], 1)))
            if exc is not None or len(res) != 1:
                raise Violation("no answer after close", "%r %r" % (res, exc))
            c.close()
    k.sleep(500 * MS)
    live = [c for c in w.net.conns if not c.c.closed and not c.tok["cancelled"]]
    if live:
        raise Violation("connection left after close()", "%d" % len(live))
    hist.check(state0, "results do not match the slave")
    if plan["dead"] and not plan.get("dead1"):
        server.stop()
        k.fault("server gone")
        for c in cls:
            for fn in (c.read_coils, c.read_input_registers, c.read_discrete_inputs):
                res, exc = call(lambda: list(fn(0)))
                if exc is None:
                    raise Violation("result without a server", short(res))
    elif not plan.get("dead1"):
        server.stop()
