"""C23 logging never changes or stops the traffic"""
import errno
from dst.kit import *

WHAT = ("verbose masters and servers (TCP, RTU) with the console, UDP and dummy loggers of create_logger while the console or "
        "the datagram socket fails, blocks or recovers; refused, broadcast and failing requests, hook errors with any text")
STALL = (0.2, 5)
RUNS = {"quick": 5000, "thorough": 150000}
STUBS = "the console and the UDP socket of the log handlers"
REAL_LOGGING = True
KEEP = ("blocks",)
PORT = 1502
BIG = tuple((0x9ABC + i * 257) & 0xFFFF for i in range(125))
ERR = {"console": ["epipe", "eagain", "enospc", "closed", "encode"], "udp": ["enetunreach", "eperm", "enobufs", "eagain"]}
TEXTS = ["boom", "d\u00e9faut", "\u6e29\u5ea6 %s %d", "100%", "", "a\nb", "long " * 500]


def gen(rng, tier):
    g = Gen(rng)
    dest = rng.choice(["console", "console", "udp", "udp", "dummy"])
    blocks = [["r", 3, 0, 8], ["c", 1, 0, 10], ["big", 3, 1000, 125]]
    threads = []
    kind = rng.choice(["tcp", "tcp", "rtu", "both"])
    for t in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            ops.append({"tr": "tcp" if kind == "tcp" or (kind == "both" and t % 2) else "rtu",
                        "m": rng.choice(["r", "r", "w", "ws", "c", "bad", "fail", "bcast", "big", "log"]), "a": rng.randrange(6),
                        "n": rng.randint(1, 3), "gap": rng.choice([0, 0, 1, 10])})
        threads.append(ops)
    faults = []
    if dest != "dummy" and rng.random() < 0.75:
        if rng.random() < 0.4:
            faults = [["all", rng.choice(ERR[dest])]]
        else:
            faults = [[rng.randrange(40), rng.choice(ERR[dest])] for _ in range(rng.randint(1, 12))]
    return {"dest": dest, "threads": threads, "faults": faults, "slow": rng.choice([0, 0, 0, 1, 15]), "blocks": blocks,
            "verbose": [rng.random() < 0.8, rng.random() < 0.8], "text": rng.choice(TEXTS),
            "level": rng.choice([10, 10, 10, 40]), "fmt": rng.choice([None, None, "%(message)s", "%(thread)d %(message)s"]),
            "restart": rng.random() < 0.2, "first": rng.random() < 0.4, "baud": 115200, "net": netcfg(rng, 0.6)}


def valid(plan):
    return all(t for t in plan["threads"])


def fault_exc(name):
    if name == "closed":
        return ValueError("I/O operation on closed file.")
    if name == "encode":
        return UnicodeEncodeError("ascii", "\u00e9", 0, 1, "ordinal not in range(128)")
    no = getattr(errno, name.upper())
    return OSError(no, name)


def run(k, w, plan):
    tr = set(o["tr"] for t in plan["threads"] for o in t)
    logging = w.load_std("logging")
    out = []
    st = {"n": 0, "lost": 0}
    every = [f[1] for f in plan["faults"] if f[0] == "all"]
    at = dict((f[0], f[1]) for f in plan["faults"] if f[0] != "all")

    def write(text):
        i = st["n"]
        st["n"] += 1
        f = every[0] if every else at.get(i)
        if plan["slow"]:
            k.sleep(plan["slow"] * MS)
        if f:
            k.fault("log destination: " + f)
            st["lost"] += 1
            raise fault_exc(f)
        out.append(text)

    w.print_out = write
    w.net.on_dgram = lambda data, addr: write((data, addr))
    kw = {"name": plan["dest"], "level": plan["level"]}
    if plan["fmt"]:
        kw["record_format"] = plan["fmt"]
    ref = []

    class Ref(logging.Handler):
        def emit(self, record):
            try:
                ref.append(self.format(record))
            except Exception:
                pass                       # a record which can not be formatted

    class Odd(object):
        def __str__(self):
            raise LookupError("no text")

    h = Ref()
    if plan["first"]:
        # the application has a handler of its own before
        logging.getLogger("modbus_tk").addHandler(h)
    logger = w.utils.create_logger(**kw)
    h.setFormatter(logging.Formatter(plan["fmt"]) if plan["fmt"] else logger.handlers[-1].formatter)
    if not plan["first"]:
        logger.addHandler(h)
    server = []
    db = w.modbus.Databank()
    masters = {}
    if "rtu" in tr:
        bus = Bus(k, plan["baud"])
        ser = FakeSerial(bus.endpoint("srv"), plan["baud"])
        server.append(w.modbus_rtu.RtuServer(ser, databank=db))
        mser = FakeSerial(bus.endpoint("m"), plan["baud"])
        masters["rtu"] = w.modbus_rtu.RtuMaster(mser)
    if "tcp" in tr:
        server.append(w.modbus_tcp.TcpServer(port=PORT, databank=db))
        masters["tcp"] = w.modbus_tcp.TcpMaster("127.0.0.1", PORT)
    slave = setup_slave(w, server[0], 1, plan["blocks"])
    slave.set_values("big", 1000, BIG)
    for s in server:
        s.set_verbose(plan["verbose"][0])
    for tr_, m in masters.items():
        # long enough for the slow log destination
        m.set_timeout(5.0 if tr_ == "tcp" else 1.0)
        m.set_verbose(plan["verbose"][1])

    def hook(args):
        raise RuntimeError(plan["text"])

    def on_req(args):
        # reading at the marked address fails
        if bytes(args[1])[:3] == b"\x04\x77\x77":
            hook(args)

    w.hooks.install_hook("modbus.Slave.handle_read_input_registers_request", hook)
    for s in server:
        s.start()
    k.sleep(60 * MS)
    stalling(k)

    vals = {}
    seen = []

    def body(i, ops):
        for j, o in enumerate(ops):
            k.sleep(o["gap"] * MS)
            m = masters[o["tr"]]
            a, n = o["a"], o["n"]
            what = "%s over %s" % (o["m"], o["tr"])
            exc = None
            with Deadline(k, what, 150 * SEC):
                if o["m"] == "r":
                    res, exc = call(m.execute, 1, 3, a % 5, n)
                    ok = exc is None and len(res) == n
                elif o["m"] == "big":
                    res, exc = call(m.execute, 1, 3, 1000, 125)
                    ok = exc is None and tuple(res) == BIG
                elif o["m"] == "c":
                    res, exc = call(m.execute, 1, 1, 0, 10)
                    ok = exc is None and len(res) == 10
                elif o["m"] == "w":
                    res, exc = call(m.execute, 1, 16, a % 6, output_value=[7, i])
                    ok = exc is None and tuple(res) == (a % 6, 2)
                elif o["m"] == "ws":
                    res, exc = call(m.execute, 1, 6, 7 - i, output_value=j + 100)
                    ok = exc is None and tuple(res) == (7 - i, j + 100)
                    vals[i] = j + 100
                elif o["m"] == "bad":
                    res, exc = call(m.execute, 1, 3, 500, 2)
                    ok = exc is not None and hasattr(exc, "get_exception_code") and exc.get_exception_code() == 2
                elif o["m"] == "fail":
                    res, exc = call(m.execute, 1, 4, 0, 1)
                    ok = exc is not None and hasattr(exc, "get_exception_code") and exc.get_exception_code() == 4
                elif o["m"] == "log":
                    # the application logs, also what can not be formatted
                    _, exc = call(*[(logger.info, "step %d", j), (logger.info, "step %d", "x"), (logger.warning, "odd %s", Odd()),
                                    (logger.error, TEXTS[a], ) if "%" not in TEXTS[a] else (logger.error, "%s", TEXTS[a])][(n + a) % 4])
                    res = None
                    ok = exc is None
                else:
                    res, exc = None, None          # broadcasts: the server only (masters wait for an answer)
                    ok = True
            if not ok:
                raise Violation("call disturbed", "%s: %s %r" % (what, short(res), exc))
            k.ops_done += 1
            if o["m"] in ("r", "big", "w", "ws"):
                seen.append(o["tr"])
                if o["m"] == "big":
                    seen.append(BIG)

    def round_():
        ts = [k.spawn(body, (i, t), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
        for t in ts:
            k.join(t)

    round_()
    if plan["restart"]:
        for m in masters.values():
            m.close()
        k.sleep(200 * MS)
        for s in server:
            _, exc = call(s.stop)
            if exc is not None:
                raise Violation("stop raised", "%r" % (exc,))
            k.stalls_ok = False
            s.start()
        k.sleep(60 * MS)
        k.stalls_ok = True
        round_()
    for s in server:
        with Deadline(k, "stop", 20 * SEC, "stop did not return"):
            _, exc = call(s.stop)
        if exc is not None:
            raise Violation("stop raised", "%r" % (exc,))
    for m in masters.values():
        _, exc = call(m.close)
        if exc is not None:
            raise Violation("close raised", "%r" % (exc,))
    if w.net.open_sockets() and plan["dest"] != "udp":
        raise Violation("sockets held", "%s" % w.net.open_sockets())
    # verbose: every frame is in the log, whole
    if plan["level"] == 10 and any(plan["verbose"]) and BIG in seen:
        text = "-".join("%d-%d" % (v >> 8, v & 255) for v in BIG)
        if sum(text in x for x in ref) < sum(plan["verbose"]) * seen.count(BIG):
            raise Violation("frame missing in the log", "%d of %d" % (sum(text in x for x in ref),
                                                                      sum(plan["verbose"]) * seen.count(BIG)))
    # every record reached its destination once, unless the destination refused it
    k.sleep(1 * SEC)
    if plan["dest"] == "dummy":
        got = []
        if out:
            raise Violation("dummy logger wrote", short(out))
        return
    if plan["dest"] == "udp":
        got = []
        for data, addr in out:
            if tuple(addr) != ("127.0.0.1", 1975) or not data.endswith(b"\r\n"):
                raise Violation("wrong datagram", "%s %s" % (addr, short(data)))
            got.append(data[:-2].decode("utf-8", "replace"))
    else:
        got = [x[:-1] for x in out]
    want = list(ref)
    for x in got:
        if x not in want:
            raise Violation("record which nobody logged", short(x))
        want.remove(x)
    if len(want) != st["lost"]:
        raise Violation("log records lost", "%d records, %d refused by the destination: %s" % (
            len(want), st["lost"], short(want)))
