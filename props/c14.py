"""C14 threads sharing masters each get the answer to their own request"""
from dst.kit import *

WHAT = ("2-4 threads execute requests on 1-3 shared TCP, RTU and RTU-over-TCP masters against scripted slaves which answer "
        "late, refuse, stay silent, answer in part or wrongly, close or reset; every frame on the wire is attributed to its call")
STALL = (0.2, 4)
RUNS = {"quick": 20000, "thorough": 400000}
STUBS = "scripted slaves"


# arguments of execute() which no request can carry: (positional), {keywords}
BAD = [[[1, 99, 0, 1], {}], [[1, 3, 70000, 1], {}], [[1, 3, -1, 1], {}], [[1, 1, 0, 70000], {}], [[256, 3, 0, 1], {}],
       [[-1, 6, 0], {"output_value": 1}], [[1, 6, 0], {"output_value": 70000}], [[1, 6, 0], {"output_value": -40000}],
       [[1, 16, 0], {"output_value": [1, 2, 70000]}], [[1, 16, 0], {"output_value": [1, -40000]}],
       [[1, 16, 0], {"output_value": 5}], [[1, 15, 0], {"output_value": 5}], [[1, 15, 70000], {"output_value": [1, 0, 1]}],
       [[1, 22, 0], {"and_mask": -5, "or_mask": 1}], [[1, 22, 0], {"and_mask": 1, "or_mask": 70000}],
       [[1, 22, 0], {"and_mask": 1}], [[1, 20, 0, 1], {"number_file": [4]}], [[1, 23, 0, 2], {"output_value": [3, 99999]}],
       [[1, 23, 0, 2], {"output_value": [1], "write_starting_address_fc23": 65536}],
       [[1, 16, 0], {"output_value": [1.5, 2.5]}], [[1, 16, 0], {"output_value": [1, 2], "data_format": ">HHH"}],
       [[1, 16, 0], {"output_value": [7] * 128}], [[1, 16, 0], {"output_value": [7] * 257}],
       [[1, 16, 0], {"output_value": [7] * 130, "data_format": ">130H"}], [[1, 15, 0], {"output_value": [1] * 2041}],
       [[1, 23, 0, 2], {"output_value": [9] * 129}], [[1, 23, 0, 70000], {"output_value": [9]}],
       [[1, 4, 65536, 1], {}], [[1, 2, 0, -1], {}], [[1, 5, 65536], {"output_value": 1}], [[1, 6, -1], {"output_value": 1}],
       [[1, 22, 0], {"and_mask": 65536, "or_mask": 1}], [[257, 16, 0], {"output_value": [1]}],
       [[1, 8, 0], {"output_value": [300]}], [[1, 43, 0], {"output_value": [1]}], [[1, 5, "a"], {"output_value": 1}]]


def gen(rng, tier):
    masters = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        kind = rng.choice(["tcp", "tcp", "rtu", "rtuotcp"])
        masters.append({"kind": kind, "timeout": rng.choice([0.1, 0.3, 1.0]), "share": rng.random() < 0.5,
                        "sw": kind == "rtu" and rng.random() < 0.3, "echo": kind == "rtu" and rng.random() < 0.2,
                        "open": rng.random() < 0.5})
    free = rng.random() < 0.2
    patient = rng.random() < (0.2 if free else 0.02)
    if patient:
        # slow devices: the others wait for longer than any limit of their own
        for m in masters:
            m["timeout"] = 40.0
    threads = []
    addr = rng.sample(range(0, 4000, 7), 40)
    pbad = rng.choice([0, 0.1, 0.3, 0.6])
    pinv = rng.choice([0, 0, 0.1, 0.3])
    for t in range(rng.choice([2, 2, 3, 4])):
        calls = []
        for _ in range(rng.randint(1, 5)):
            beh = "ok"
            if rng.random() < pbad and not patient:
                beh = rng.choice(["refuse", "refuse", "silent", "half", "garbage", "wrong", "close", "reset", "half_close"])
            calls.append({"m": rng.randrange(len(masters)), "fc": rng.choice([1, 3, 3, 3, 4, 6, 16, 5]), "a": addr.pop(),
                          "n": rng.randint(1, 10), "u": rng.choice([1, 1, 1, 2, 9]), "beh": beh,
                          "x": rng.randint(0, 12), "bad": rng.choice(BAD) if rng.random() < pinv else None,
                          "delay": rng.choice([0, 0, 1, 5, 20]) if not patient else rng.choice([0, 12000, 35000]), "gap": rng.choice([0, 0, 0, 1, 10, 200])})
        threads.append(calls)
    if free:
        # every thread has its own master and asks for no lock: the calls really overlap
        masters = [dict(rng.choice(masters)) for _ in threads]
        for t, calls in enumerate(threads):
            for c in calls:
                c["m"] = t
    return {"free": free, "masters": masters, "threads": threads, "hooks": rng.random() < 0.3, "verbose": rng.random() < 0.1,
            "net": dict(netcfg(rng, 0.5), lat=rng.choice([10 * US, 300 * US, 1 * MS]), jitter=rng.choice([0, 0, 2 * MS]))}


def valid(plan):
    seen = set()
    for i, t in enumerate(plan["threads"]):
        for c in t:
            if c["a"] in seen or plan["free"] and c["m"] % len(plan["masters"]) in [
                    d["m"] % len(plan["masters"]) for j, u in enumerate(plan["threads"]) if j != i for d in u]:
                return False
            seen.add(c["a"])
    return True


def reg(u, a):
    return (a * 2731 + u * 977 + 5) & 0xFFFF


def request_of(c):
    a, n, u = c["a"], c["n"], c["u"]
    if c["fc"] in (1, 3, 4):
        return p_read(c["fc"], a, n)
    if c["fc"] == 6:
        return p_w1(6, a, reg(u, a))
    if c["fc"] == 5:
        return p_w1(5, a, 0xFF00 if a % 2 else 0)
    return p_wregs(a, [reg(u, a + j) for j in range(n)])


def answer_of(c):
    """(pdu, value returned by execute)"""
    a, n, u = c["a"], c["n"], c["u"]
    if c["fc"] == 1:
        bits = [(reg(u, a + j) >> 3) & 1 for j in range(n)]
        return bytes((1, (n + 7) // 8)) + pack_bits(bits), tuple(bits)
    if c["fc"] in (3, 4):
        v = [reg(u, a + j) for j in range(n)]
        return bytes((c["fc"], 2 * n)) + b"".join(x.to_bytes(2, "big") for x in v), tuple(v)
    if c["fc"] == 6:
        return request_of(c), (a, reg(u, a))
    if c["fc"] == 5:
        return request_of(c), (a, 0xFF00 if a % 2 else 0)
    return request_of(c)[:5], (a, n)


class Peer(object):
    pass


def run(k, w, plan):
    if not valid(plan):
        k.probe("plan skipped")
        return
    peers = []
    calls = {}
    for t, spec in enumerate(plan["threads"]):
        for c in spec:
            calls[(c["u"], request_of(c))] = st = dict(c)
            st["th"] = t
            st["state"] = "new"
            st["wire"] = 0
            st["answered"] = False
    ports = [1502]
    for i, ms in enumerate(plan["masters"]):
        p = Peer()
        p.ms, p.kind = ms, ms["kind"]
        same = [q for q in peers if q.kind == p.kind and p.kind != "rtu"]
        if same and ms["share"]:
            p.port, p.stub = same[0].port, same[0].stub        # two masters of one slave
        elif p.kind == "rtu":
            p.bus = Bus(k, 57600)
            p.stub = Stub(k, None, bus=p.bus, name="slave%d" % i)
            p.ser = FakeSerial(p.bus.endpoint("m%d" % i), 57600)
            p.ser._ep.echo = ms["echo"]
        else:
            p.port = ports[0]
            ports[0] += 1
            p.stub = Stub(k, None, w.net, p.port, "tcp" if p.kind == "tcp" else "rtu")
            p.stub.up()
        if p.kind == "rtu":
            p.master = w.modbus_rtu.RtuMaster(p.ser)
            p.master.handle_local_echo = ms["echo"]
            p.master.set_timeout(ms["timeout"], ms["sw"])
        else:
            cls = w.modbus_rtu_over_tcp.RtuOverTcpMaster if p.kind == "rtuotcp" else w.modbus_tcp.TcpMaster
            p.master = cls("127.0.0.1", p.port, ms["timeout"])
        p.master.set_verbose(plan["verbose"])
        peers.append(p)

    last = {}                  # link -> call whose request was the last one on it

    def respond(link, frame):
        if link.stub.framing == "tcp":
            unit, pdu = frame[6], bytes(frame[7:])
        else:
            if not rtu_ok(frame):
                k.fail("damaged request on the wire", short(frame))
                return
            unit, pdu = frame[0], bytes(frame[1:-2])
        c = calls.get((unit, pdu))
        if c is None:
            k.fail("request that nobody made", short(frame))
            return
        c["wire"] += 1
        if c["wire"] > 1:
            k.fail("request sent twice", short(frame))
            return
        if c["state"] != "running":
            k.fail("request of a call not in progress", "%s is %s" % (short(frame), c["state"]))
            return
        prev = last.get(id(link))
        # a call which gave up has released the master, but may not have returned yet
        if prev is not None and not prev["answered"] and prev["state"] == "running" and k.now < prev["patience"]:
            k.fail("request sent before the previous one was answered", "%s while thread %d waits" % (
                short(frame), prev["th"]))
            return
        last[id(link)] = c
        c["patience"] = k.now + int(peers[c["m"] % len(peers)].ms["timeout"] * 0.9 * SEC)
        if link.buf:
            k.fail("bytes after a request", "%s + %s" % (short(frame), short(link.buf)))
            return
        body, _ = answer_of(c)

        def pack(b):
            return mbap(int.from_bytes(frame[:2], "big"), unit, b) if link.stub.framing == "tcp" else rtu_frame(unit, b)

        good = pack(body)
        b = c["beh"]
        if b != "ok":
            k.fault("slave " + b)
        d = c["delay"] * MS
        if link.end is None:
            d += 2 * MS
        if b in ("close", "reset"):
            c["answered"] = True
            if link.end is not None:
                link.close(b == "reset", d)
            return
        if b == "silent":
            return
        data = good
        if b == "refuse":
            data = pack(bytes((pdu[0] | 0x80, 1 + c["x"] % 4)))
        elif b in ("half", "half_close"):
            data = good[:1 + c["x"] % (len(good) - 1)]
        elif b == "garbage":
            # nothing may be left of it when the call has failed
            data = bytes((i * 83 + c["x"]) & 255 for i in range(c["x"] + 1))
            if link.stub.framing == "tcp":
                data = mbap(c["x"] * 4000, unit, data) if c["x"] % 2 else data[:5]
            else:
                data = data[:len(good) if link.end is None else 4]
        elif b == "wrong":
            data = bytearray(good)
            data[0 if link.stub.framing == "tcp" else len(good) - 1] ^= 1 + c["x"]
        if d:
            k.after(d, send, link, bytes(data), c, b)
        else:
            send(link, bytes(data), c, b)

    def send(link, data, c, b):
        link.send(data)
        c["answered"] = True
        if b == "half_close" and link.end is not None:
            link.close(False, 100 * US)

    for p in peers:
        p.stub.respond = respond
    if plan["hooks"]:
        def hook(args):
            k.point()
        for nm in ("modbus_tcp.TcpMaster.before_send", "modbus_tcp.TcpMaster.after_recv", "modbus_rtu.RtuMaster.before_send",
                   "modbus_rtu.RtuMaster.after_recv", "modbus.Master.before_send", "modbus.Master.after_recv",
                   "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", "modbus_tcp.TcpMaster.before_connect"):
            w.hooks.install_hook(nm, hook)
    for p in peers:
        if p.ms["open"]:
            p.master.open()

    free = {"threadsafe": False} if plan["free"] else {}

    def body(spec):
        for c0 in spec:
            k.sleep(c0["gap"] * MS)
            if c0["bad"]:
                # must raise without sending anything: a frame would be reported as a request that nobody made
                p = peers[c0["m"] % len(peers)]
                _, exc = call(p.master.execute, *c0["bad"][0], **dict(c0["bad"][1], **free))
                if exc is None:
                    raise Violation("impossible arguments accepted", "%s" % (c0["bad"],))
                k.probe("calls with impossible arguments")
                continue
            c = calls[(c0["u"], request_of(c0))]
            p = peers[c["m"] % len(peers)]
            c["state"] = "running"
            t0, stall0 = k.now, k.stall_total
            a, n, u, fc = c["a"], c["n"], c["u"], c["fc"]
            if fc in (1, 3, 4):
                res, exc = call(p.master.execute, u, fc, a, n, **free)
            elif fc == 6:
                res, exc = call(p.master.execute, u, 6, a, output_value=reg(u, a), **free)
            elif fc == 5:
                res, exc = call(p.master.execute, u, 5, a, output_value=a % 2, **free)
            else:
                res, exc = call(p.master.execute, u, 16, a, output_value=[reg(u, a + j) for j in range(n)], **free)
            c["state"] = "done"
            k.ops_done += 1
            what = "thread %d, %s master, request %s (%s)" % (c["th"], p.kind, request_of(c).hex(), c["beh"])
            want = answer_of(c)[1]
            if c["beh"] == "ok":
                if exc is not None:
                    raise Violation("call failed", "%s: %s: %s" % (what, ename(exc), exc))
                if tuple(res) != want:
                    raise Violation("answer of another request", "%s: %s instead of %s" % (what, short(res), short(want)))
                if free and k.now - t0 - (k.stall_total - stall0) > c["delay"] * MS + 3 * SEC:
                    raise Violation("call without lock waits for other masters", "%s: %.3f s for an answer after %d ms" % (
                        what, (k.now - t0) / 1e9, c["delay"]))
                if c["wire"] != 1:
                    raise Violation("answered without asking", what)
            elif exc is None:
                raise Violation("failed request returned data", "%s: %s" % (what, short(res)))
            elif c["beh"] == "refuse":
                code = exc.get_exception_code() if hasattr(exc, "get_exception_code") else None
                if code != 1 + c["x"] % 4:
                    raise Violation("answer of another request", "%s: %r instead of exception code %d" % (
                        what, exc, 1 + c["x"] % 4))
            else:
                k.probe("failing calls")

    stalling(k)
    ts = [k.spawn(body, (t,), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    for t in ts:
        k.join(t)
    for p in peers:
        if p.kind == "rtu" and p.bus.collisions:
            raise Violation("frames overlap on the line", "%d collisions" % p.bus.collisions)
        silently(p.master.close)
