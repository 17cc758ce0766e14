"""C03 a TCP master never returns the answer to another request"""
from dst.kit import *

WHAT = ("1-3 threads and 1-3 TCP masters against scripted slaves that delay, duplicate and replay answers, damage single "
        "header fields, truncate answers and close or reset connections (also replaying old answers after a reconnect); "
        "transaction ids near the 16-bit rollover")
STALL = (0.2, 4)
RUNS = {"quick": 12000, "thorough": 300000}

BEHAVE = ["ok", "ok", "late", "dup", "dup_late", "replay", "replay_all", "tid", "tid", "proto", "unit", "length", "long",
          "short_len", "trunc", "trunc_close", "split_reconnect", "close", "exc", "exc_tid", "other_unit_first", "swap"]


def byte(rng):
    return rng.randrange(0x80, 0xF0)


def word(rng):
    return byte(rng) << 8 | byte(rng)


def gen(rng, tier):
    nm = rng.choice([1, 1, 2, 3])
    calm = rng.random() < 0.1
    stubs = rng.randint(1, nm)
    masters = [{"stub": rng.randrange(stubs) if i >= stubs else i, "timeout": rng.choice([0.05, 0.2, 1.0])}
               for i in range(nm)]
    threads = []
    used = set()
    for t in range(rng.choice([1, 1, 2, 3])):
        calls = []
        for _ in range(rng.randint(1, 7)):
            a = word(rng)
            while a in used:
                a = word(rng)
            used.add(a)
            fc = rng.choice([1, 2, 3, 3, 3, 4, 5, 6, 15, 16, 23, 0, 0])
            calls.append([rng.choice([0, 0, 0, 1, 60, 300, 1200]), rng.randrange(nm), rng.randint(1, 247), fc, a,
                          rng.randint(1, 12)])
            if rng.random() < 0.07:
                # closed and opened again between the calls
                calls.append([rng.choice([0, 1, 300]), rng.randrange(nm), 0, rng.choice(["close", "close", "open", "timeout"]), 0, 0])
        threads.append({"calls": calls})
    script = [[rng.choice(["ok"] if calm else BEHAVE), rng.randint(1, 40), rng.choice([1, 40, 300, 900])]
              for _ in range(rng.randint(0, 18))]
    builders = [rng.randint(1, 12) for _ in range(rng.choice([0, 0, 0, 2, 3]))]
    if rng.random() < 0.02:
        builders = [rng.choice([150, 270, 1100]) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.0007:
        # the whole cycle of the ids
        builders = [rng.choice([33000, 65000])]
        threads, script = threads[:1], []
    net = netcfg(rng, 0.4)
    net["jitter"] = min(net.get("jitter", 0), 5 * MS)
    net["lat"] = min(net["lat"], 2 * MS)
    if net.get("seg") == "bytes" and rng.random() < 0.7:
        net["seg"] = "random"
    return {"masters": masters, "threads": threads, "script": script, "net": net, "builders": builders,
            "tid0": rng.choice([None, None, 0, 254, 0xFFFB, 0xFFFD, 0xFFFE, 0xFFFF])}


def value(addr, i):
    h = (addr * 40503 + i * 9973 + 12345) & 0xFFFF
    return (0x80 + (h >> 8) % 0x70) << 8 | (0x80 + (h & 0xFF) % 0x70)


def answer(pdu):
    fc = pdu[0]
    a, n = int.from_bytes(pdu[1:3], "big"), int.from_bytes(pdu[3:5], "big")
    if fc in (1, 2):
        nb = (n + 7) // 8
        return bytes((fc, nb)) + bytes(value(a, i) & 0xFF for i in range(nb))
    if fc in (3, 4, 23):
        return bytes((fc, 2 * n)) + b"".join(value(a, i).to_bytes(2, "big") for i in range(n))
    return pdu[:5]


def run(k, w, plan):
    if plan["tid0"] is not None and hasattr(w.modbus_tcp.TcpQuery, "_last_transaction_id"):
        w.modbus_tcp.TcpQuery._last_transaction_id = plan["tid0"]
    script = [list(s) for s in plan["script"]]
    order = []                     # ids in sending order
    legits = {}                    # address -> bodies sent in complete frames with the right header
    excs = {}                      # address -> exception codes sent

    def before_send(args):
        order.append(int.from_bytes(args[1][:2], "big"))

    w.hooks.install_hook("modbus.Master.before_send", before_send)
    stubs = []
    calm = [False]
    stalling(k)

    def make(i):
        st = Stub(k, None, w.net, 1502 + i, "tcp")
        history = []               # earlier good answers
        carry = []                 # what the next connection starts with

        def later(link, delay, data):
            def fire():
                st.pending -= 1
                if not link.cut and not link.closed:
                    link.send(data)
            st.pending += 1
            k.after(delay * MS, fire)

        def respond(link, frame):
            link.cut = False
            tid, unit, pdu = int.from_bytes(frame[:2], "big"), frame[6], frame[7:]
            if frame[2:4] != b"\0\0" or not pdu:
                raise Violation("malformed request", frame.hex())
            body = answer(pdu)
            good = mbap(tid, unit, body)
            # a frame with a wrong header answers something else
            wrong = bytes(x ^ 1 if 3 <= i else x for i, x in enumerate(body)) if len(body) > 3 else body[:-1] + b"\xee"
            b, n, ms = ("ok", 1, 1) if calm[0] or not script else script.pop(0)
            legit = legits.setdefault(int.from_bytes(pdu[1:3], "big"), [body])
            if b != "ok":
                k.fault("slave: " + b)
            old = history[-1 - n % len(history)] if history else b""
            if b == "ok":
                link.send(good)
            elif b == "late":
                later(link, ms, good)
            elif b == "dup":
                link.send(good + good)
            elif b == "dup_late":
                link.send(good)
                later(link, ms, good)
            elif b == "replay":
                link.send(old + good if n % 2 else old)
            elif b == "replay_all":
                link.send(b"".join(history[-4:]) + good)
            elif b == "tid":
                d = [1, 0xFFFF, 2, 0x100, 0x8000, 0xFF00][n % 6]
                link.send(mbap((tid + d) & 0xFFFF, unit, wrong))
            elif b == "swap":
                s = (tid >> 8) | (tid & 0xFF) << 8
                if s == tid:
                    s ^= 1
                link.send(mbap(s, unit, wrong))
            elif b == "proto":
                link.send(mbap(tid, unit, wrong, proto=[1, 0x100, 0xFFFF][n % 3]))
            elif b == "unit":
                link.send(mbap(tid, [(unit + 1) & 0xFF, 0, 255 if unit != 255 else 1, unit ^ 0x80][n % 4], wrong))
            elif b == "other_unit_first":
                link.send(mbap(tid, unit ^ 1, wrong) + good)
            elif b == "length":
                extra = n if n < 30 else (n - 29) * 256
                link.send(mbap(tid, unit, wrong if n % 2 else body, length=len(body) + 1 + extra))
                if n % 3 == 0 or n >= 30:
                    link.close()
                link.cut = True
            elif b == "short_len":
                m = 1 + n % len(body)
                legit.append(body[:len(body) - m])
                link.send(mbap(tid, unit, body, length=len(body) + 1 - m))
                link.cut = True
            elif b == "long":
                legit.append(body + bytes([0xA5]) * (1 + n % 9))
                link.send(mbap(tid, unit, legit[-1]))
            elif b in ("trunc", "trunc_close", "split_reconnect"):
                m = n % len(good)
                link.send(good[:m])
                link.cut = True
                if b != "trunc":
                    link.close()
                if b == "split_reconnect":
                    carry.append(good[m:])
            elif b == "close":
                link.close(n % 2 == 0)
                if n % 3 == 0:
                    carry.append(good)
            elif b == "exc":
                code = n % 11 + 1
                excs.setdefault(int.from_bytes(pdu[1:3], "big"), []).append(code)
                link.send(mbap(tid, unit, bytes((pdu[0] | 0x80, code))))
            elif b == "exc_tid":
                link.send(mbap(tid ^ 1, unit, bytes((pdu[0] | 0x80, n % 11 + 1))))
            history.append(good)

        def on_connect(link):
            link.cut = False
            while carry and not calm[0]:
                k.probe("old bytes on a new connection")
                link.send(carry.pop(0))

        st.respond = respond
        st.on_connect = on_connect
        st.up()
        return st

    for i in range(1 + max([m["stub"] for m in plan["masters"]])):
        stubs.append(make(i))
    masters = [w.modbus_tcp.TcpMaster("127.0.0.1", 1502 + m["stub"], m["timeout"]) for m in plan["masters"]]

    def check(fc, addr, n, res, unit):
        val, exc = res
        if exc is not None:
            k.probe("call raised")
            if "ModbusError" in [c.__name__ for c in type(exc).__mro__]:
                if exc.get_exception_code() not in excs.get(addr, ()):
                    raise Violation("foreign exception", "fc %d addr %d: code %d, sent %s" % (
                        fc, addr, exc.get_exception_code(), excs.get(addr)))
            return
        k.probe("call answered")
        if fc == 0:
            want = [tuple(b[1:]) for b in legits.get(addr, ())]
            want = tuple(val) if tuple(val) in want else want
        elif fc in (1, 2):
            bits = []
            for i in range((n + 7) // 8):
                bits += [value(addr, i) >> j & 1 for j in range(8)]
            want = tuple(bits[:n])
        elif fc in (3, 4, 23):
            want = tuple(value(addr, i) for i in range(n))
        elif fc == 5:
            want = (addr, 0xFF00)
        elif fc == 6:
            want = (addr, value(addr, 77))
        else:
            want = (addr, n)
        if tuple(val) != want:
            raise Violation("foreign answer", "unit %d fc %d addr %d n %d: %s instead of %s" % (
                unit, fc, addr, n, short(val), short(want)))

    def request(m, unit, fc, addr, n):
        kw = {}
        if fc == 0:
            args, kw = (0,), {"pdu": p_read(3, addr, n), "returns_raw": True}
        elif fc in (1, 2, 3, 4):
            args = (addr, n)
        elif fc == 5:
            args, kw = (addr,), {"output_value": 1}
        elif fc == 6:
            args, kw = (addr,), {"output_value": value(addr, 77)}
        elif fc == 15:
            args, kw = (addr,), {"output_value": [1, 0] * (n // 2) + [1] * (n % 2)}
        elif fc == 16:
            args, kw = (addr,), {"output_value": [value(addr, i) for i in range(n)]}
        else:
            args, kw = (addr, n), {"output_value": [value(addr, 5)], "write_starting_address_fc23": addr}
        res = call(m.execute, unit, fc, *args, **kw)
        k.ops_done += 1
        check(fc, addr, n, res, unit)
        return res

    def body(spec):
        for gap, m, unit, fc, addr, n in spec["calls"]:
            k.sleep(gap * MS)
            m %= len(masters)
            if isinstance(fc, str):
                if len(plan["threads"]) > 1:
                    # closing during a request in progress is not claimed
                    continue
                k.probe("close, open or set_timeout between calls")
                if fc == "timeout":
                    masters[m].set_timeout(plan["masters"][m]["timeout"])
                else:
                    silently(getattr(masters[m], fc))
                continue
            request(masters[m], unit, fc, addr, n)

    built = []

    def builder(n):
        for _ in range(n):
            frame = w.modbus_tcp.TcpQuery().build_request(b"\x03\x00\x00\x00\x01", 1)
            built.append(int.from_bytes(frame[:2], "big"))

    ts = [k.spawn(body, (t,), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    ts += [k.spawn(builder, (n,), "B%d" % i, harness=True) for i, n in enumerate(plan["builders"])]
    for t in ts:
        k.join(t)
    calm[0] = True
    fresh = w.modbus_tcp.TcpMaster("127.0.0.1", 1502, 5.0)
    for j in range(3):
        res = request(fresh, 17, 3, 0xC0C0 + j, 3)
        if res[1] is not None:
            raise Violation("correct answer refused", "%s: %s" % (ename(res[1]), res[1]))
    seen = order + built
    if len(set(seen)) != len(seen):
        raise Violation("transaction id repeated", short(sorted(x for x in set(seen) if seen.count(x) > 1)) +
                        " in " + short(order, 400))
    if any(not 0 <= x <= 0xFFFF for x in seen):
        raise Violation("transaction id out of range", short(seen))
    k.probe("ids crossing 0xffff" if 0xFFFF in seen and 0 in seen else "ids")
