"""C04 damaged RTU frames never yield data and never change memory"""
from dst.kit import *

WHAT = ("an RtuServer hearing intact, damaged, merged and foreign request frames and noise, and RtuMaster / RtuOverTcpMaster "
        "receiving damaged, foreign, stale and noisy answers; every burst on the line judged by its CRC and address")
RUNS = {"quick": 24000, "thorough": 500000}
KEEP = ("blocks",)
STUBS = "raw RTU bus device as master, scripted slave for the masters"


def gen_damage(rng):
    kind = rng.choice(["flip", "flip", "flip2", "xor", "byte", "cut", "cutfront", "cutmid", "dup", "ins", "before", "after",
                       "swap", "crc0", "crcswap", "addr", "addr", "stutter"])
    return [kind, rng.randrange(1 << 30), [rng.randrange(256) for _ in range(rng.randint(1, 6))]]


def damage(frame, spec):
    """altered frame; always different from the original"""
    kind, r, noise = spec
    f = bytearray(frame)
    n = len(f)
    i = r % n
    if kind == "flip":
        f[i] ^= 1 << (r >> 12) % 8
    elif kind == "flip2":
        f[i] ^= 1 << (r >> 12) % 8
        f[(i + 1 + (r >> 16) % max(1, n - 1)) % n] ^= 1 << (r >> 24) % 8
    elif kind == "xor":
        for j in range(min(len(noise), n)):
            f[(i + j) % n] ^= noise[j] | 1
    elif kind == "byte":
        f[i] = (f[i] + 1 + (r >> 12) % 255) & 0xFF
    elif kind == "cut":
        del f[1 + (r % max(1, n - 1)):]
    elif kind == "cutfront":
        del f[:1 + (r % max(1, n - 1))]
    elif kind == "cutmid":
        del f[i]
    elif kind == "dup":
        f.insert(i, f[i])
    elif kind == "ins":
        f.insert(i, noise[0])
    elif kind == "before":
        f[0:0] = bytes(noise)
    elif kind == "after":
        f += bytes(noise)
    elif kind == "swap":
        j = (i + 1) % n
        f[i], f[j] = f[j], f[i]
    elif kind == "crc0":
        f[-2:] = bytes((noise[0], noise[-1]))
    elif kind == "crcswap":
        f[-2], f[-1] = f[-1], f[-2]
    elif kind == "addr":
        f = bytearray(rtu_frame((f[0] + 1 + r % 255) & 0xFF, bytes(f[1:-2])))
    elif kind == "stutter":
        f += f[-(1 + r % 3):]
    return bytes(f)


def gen_server(rng, tier):
    g = Gen(rng, rng.random() < 0.7)
    blocks = g.blocks(maxsize=6, maxblocks=4)
    if rng.random() < 0.1:
        blocks.append(["big", 3, 2000, 130])
    units = rng.sample([1, 2, 5, 17, 100, 247, 255], rng.choice([1, 1, 2, 3]))
    bursts = []
    for _ in range(rng.randint(1, 14)):
        kind = rng.choice(["good", "good", "damaged", "damaged", "damaged", "noise", "merge", "foreign", "two", "answer"])
        unit = rng.choice(units) if rng.random() < 0.9 else 0
        pdu = g.pdu(blocks, FCS, 0.1, 8)
        if blocks[-1][0] == "big" and rng.random() < 0.3:
            pdu = g.pdu([blocks[-1]], (16, 23), 0.0, 120)
        if rng.random() < 0.05:
            pdu = g.malformed(pdu) or b"\x03"
        b = {"k": kind, "u": unit, "p": pdu.hex(), "gaps": rng.choice([0, 0, 0.3, 0.6])}
        if kind in ("damaged", "two"):
            b["d"] = gen_damage(rng)
        if kind == "foreign":
            b["x"] = rng.choice([1 << rng.randrange(8), 128, rng.randrange(1, 256)])
        if kind == "noise":
            b["n"] = bytes(rng.choice([0, 255, rng.randrange(256), rng.choice(units)])
                           for _ in range(rng.randint(1, 300 if rng.random() < 0.1 else 12))).hex()
        if kind in ("merge", "two"):
            b["p2"] = g.pdu(blocks, FCS, 0.1, 4).hex()
        bursts.append(b)
    return {"role": "server", "unsigned": g.unsigned, "blocks": blocks, "units": units, "bursts": bursts,
            "baud": rng.choice([9600, 19200, 38400, 115200]), "mode": rng.choice(["posix", "gap"])}


def gen_master(rng, tier):
    calls = []
    kind = rng.choice(["rtu", "rtu", "rtuotcp"])
    baud = rng.choice([9600, 38400, 115200])
    for _ in range(rng.randint(1, 10)):
        fc = rng.choice([1, 2, 3, 3, 4, 5, 6, 15, 16, 22, 23, 43, 0])
        c = {"fc": fc, "a": rng.randrange(65536), "n": rng.randint(1, 20 if baud < 38400 or rng.random() < 0.9 else 121),
             "u": rng.randint(1, 255), "x": rng.choice([1 << rng.randrange(8), 128, rng.randrange(1, 256)]),
             "b": rng.choice(["ok", "damaged", "damaged", "damaged", "silent", "exc", "exc_damaged", "wrong_unit", "late"]),
             "d": gen_damage(rng), "gap": rng.choice([0, 0, 5, 700]), "stale": ""}
        if rng.random() < 0.4:
            c["stale"] = rng.choice(["frame", "frame", "noise", "half", "much"])
            c["much"] = rng.choice([256, 300, 1000, 1025, 2500, 4096, 5000])
            c["sn"] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 10))).hex()
        calls.append(c)
    net = netcfg(rng, 0.4)
    net["jitter"] = min(net.get("jitter", 0), 5 * MS)
    net["lat"] = min(net["lat"], 2 * MS)
    return {"role": "master", "kind": kind, "calls": calls, "baud": baud,
            "mode": rng.choice(["posix", "gap"]), "sw": rng.random() < 0.2, "echo": rng.random() < 0.2,
            "timeout": rng.choice([0.1, 0.3]), "net": net}


def gen(rng, tier):
    plan = gen_server(rng, tier) if rng.random() < 0.5 else gen_master(rng, tier)
    return plan


def run(k, w, plan):
    (run_server if plan["role"] == "server" else run_master)(k, w, plan)


# ---------------------------------------------------------------------- server side
def run_server(k, w, plan):
    k.stall_p = 0
    bus = Bus(k, plan["baud"])
    srv = w.modbus_rtu.RtuServer(FakeSerial(bus.endpoint("srv"), plan["baud"], mode=plan["mode"]))
    lay = Layout(plan["blocks"], plan["unsigned"])
    slaves, state = {}, {}
    for u in plan["units"]:
        slaves[u] = setup_slave(w, srv, u, plan["blocks"], plan["unsigned"])
        state[u] = lay.initial()
    srv.start()
    k.sleep(50 * MS)
    raw = RtuRaw(bus, "m")
    tmo = int(srv.get_timeout() * SEC)
    for i, b in enumerate(plan["bursts"]):
        pdu = bytes.fromhex(b["p"])
        f = rtu_frame(b["u"], pdu)
        kind = b["k"]
        if kind == "good":
            data = f
        elif kind == "damaged":
            data = damage(f, b["d"])
        elif kind == "noise":
            data = bytes.fromhex(b["n"])
        elif kind == "merge":
            data = f + rtu_frame(b["u"], bytes.fromhex(b["p2"]))
        elif kind == "two":
            data = damage(f, b["d"]) + rtu_frame(b["u"], bytes.fromhex(b["p2"]))
        elif kind == "foreign":
            u = b["u"] ^ b["x"]
            while u in slaves or u == 0:
                u = (u + 1) & 0xFF
            data = rtu_frame(u, pdu)
        else:                      # the answer of another device
            u = 33
            data = rtu_frame(u, b"\x03\x04\x12\x34\x56\x78")
        if kind != "good":
            k.fault("line: " + (b["d"][0] if kind == "damaged" else kind))
        gaps = None
        if b["gaps"]:
            g = int(b["gaps"] * (tmo - bus.char))
            gaps = {j: g for j in range(1, len(data), 3)}
        mark = raw.mark()
        # at 8 data bits the line of each byte is what the server gets
        end = bus.transmit(raw.ep, data, gaps)
        k.sleep(end - k.now + (sum(gaps.values()) if gaps else 0))
        while True:
            ref = max(bus.last_byte, bus.tx_free)
            until = ref + 5 * tmo + 25 * MS
            if k.now >= until:
                break
            k.sleep(until - k.now)
        got = raw.since(mark)
        valid = len(data) >= 3 and rtu_frame(data[0], data[1:-2]) == data      # may be an empty PDU
        unit = data[0]
        what = "burst %d (%s) %s" % (i, b["d"][0] if kind == "damaged" else kind, short(data, 80))
        k.ops_done += 1
        if valid and unit in slaves:
            acc = answer_ok(lay, state[unit], data[1:-2], got, unit)
            if acc is None:
                raise Violation("wrong answer", "%s: %s" % (what, short(got, 80)))
            state[unit] = acc
            k.probe("intact requests served")
        elif valid and unit == 0:
            if got:
                raise Violation("broadcast answered", "%s: %s" % (what, short(got, 80)))
            for u in slaves:
                knd, resps, codes, new = lay.request(state[u], data[1:-2])
                if knd == "bad":
                    cur = dump(slaves[u], plan["blocks"])
                    if cur in (state[u], new):
                        new = cur
                state[u] = new
        else:
            if got:
                raise Violation("answer to a damaged or foreign frame", "%s: %s" % (what, short(got, 80)))
            k.probe("damaged or foreign frames ignored")
        for u in slaves:
            cur = dump(slaves[u], plan["blocks"])
            if cur != state[u]:
                raise Violation("memory changed" if not valid else "wrong contents", "%s: slave %d has %s instead of %s" % (
                    what, u, short(cur, 120), short(state[u], 120)))


def answer_ok(lay, state, pdu, got, unit):
    """new state or None"""
    kind = lay.request(state, pdu)[0]
    if not got:
        return state if kind == "bad" else None
    if not rtu_ok(got) or got[0] != unit:
        return None
    acc = lay.accept(state, pdu, got[1:-2])
    return acc[0] if acc else None


# ---------------------------------------------------------------------- master side
def val(a, i):
    return (a * 2731 + i * 7919 + 13) & 0xFFFF


def normal(pdu):
    fc = pdu[0]
    a, n = int.from_bytes(pdu[1:3], "big"), int.from_bytes(pdu[3:5], "big")
    if fc in (1, 2):
        return bytes((fc, (n + 7) // 8)) + pack_bits([val(a, i) & 1 for i in range(n)])
    if fc in (3, 4, 23):
        return bytes((fc, 2 * n)) + b"".join(val(a, i).to_bytes(2, "big") for i in range(n))
    if fc == 43:
        return bytes((43, 14, 1, 1, 0, 0, 1, 0, 5)) + b"ab" + bytes((a & 255, pdu[2], pdu[3]))
    if fc in (15, 16):
        return pdu[:5]
    return pdu


def run_master(k, w, plan):
    bus = None
    if plan["kind"] == "rtu":
        bus = Bus(k, plan["baud"])
        stub = Stub(k, None, bus=bus)
        ep = bus.endpoint("m")
        ep.echo = plan["echo"]
        m = w.modbus_rtu.RtuMaster(FakeSerial(ep, plan["baud"], mode=plan["mode"]))
        m.handle_local_echo = plan["echo"]
        m.set_timeout(plan["timeout"], plan["sw"])
    else:
        stub = Stub(k, None, w.net, 1502, "rtu")
        stub.up()
        m = w.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", 1502, plan["timeout"])
    cur = {}
    link0 = [None]

    def respond(link, frame):
        link0[0] = link
        c = cur["c"]
        if not rtu_ok(frame):
            k.fail("damaged request", "%s (%s)" % (frame.hex(), c))
            return
        unit, pdu = frame[0], frame[1:-2]
        good = rtu_frame(unit, normal(pdu))
        b = c["b"]
        if b in ("exc", "exc_damaged"):
            good = rtu_frame(unit, bytes((pdu[0] | 0x80, 1 + c["n"] % 8)))
        out = good
        if b in ("damaged", "exc_damaged"):
            out = damage(good, c["d"])
            k.fault("answer: " + c["d"][0])
        elif b == "wrong_unit":
            out = rtu_frame(unit ^ c["x"], bytes(x ^ (1 if i > 1 else 0) for i, x in enumerate(normal(pdu))))
            k.fault("answer: other unit")
        elif b == "silent":
            out = b""
            k.fault("answer: silent")
        cur["out"] = out
        cur["good"] = good
        delay = 3 * MS
        if b == "late":
            delay = int(plan["timeout"] * SEC * 2.5) + 50 * MS
            k.fault("answer: late")
            cur["late"] = k.now + delay + (len(out) * bus.char if bus else 0)
        if out:
            link.send(out, delay)

    stub.respond = respond
    lost = False
    for i, c in enumerate(plan["calls"]):
        if stub.pending:           # a late answer must have arrived before the next request
            while stub.pending:
                k.sleep(100 * MS)
        if c["gap"]:
            k.sleep(c["gap"] * MS)
        fc, a, n, unit = c["fc"], c["a"], c["n"], c["u"]
        pdu = {1: p_read(1, a, n), 2: p_read(2, a, n), 3: p_read(3, a, n), 4: p_read(4, a, n), 0: p_read(3, a, n)}.get(fc)
        if c["stale"] and (bus is not None or (link0[0] is not None and not link0[0].closed and not link0[0].end.closed)):
            old = rtu_frame(unit, bytes(x ^ (1 if j > 1 else 0) for j, x in enumerate(normal(pdu or p_w1(6, a, n)))))
            if c["stale"] == "much":
                # ends with a whole frame
                old = (old * (c["much"] // len(old) + 1))[-c["much"]:]
            data = old if c["stale"] in ("frame", "much") else old[:len(old) // 2] if c["stale"] == "half" else bytes.fromhex(c["sn"])
            (stub.line if bus is not None else link0[0]).send(data)
            k.fault("stale bytes")
        if bus is not None:
            while bus.tx_free > k.now or k.now < bus.last_byte + 20 * bus.char:
                k.sleep(max(bus.tx_free - k.now, 20 * bus.char))
            stub.line.buf = bytearray()
        else:
            k.sleep(60 * MS)
            for l in stub.links:
                l.buf = bytearray()
        cur.clear()
        cur["c"] = c
        kw = {}
        if fc in (1, 2, 3, 4):
            args = (fc, a, n)
            want = tuple(val(a, j) & 1 for j in range(n)) if fc < 3 else tuple(val(a, j) for j in range(n))
        elif fc == 0:
            args, kw = (0, 0), {"pdu": pdu, "returns_raw": True}
            want = tuple(normal(pdu)[1:])
        elif fc == 5:
            args, kw = (5, a), {"output_value": n % 2}
            want = (a, 0xFF00 if n % 2 else 0)
        elif fc == 6:
            args, kw = (6, a), {"output_value": val(a, 3)}
            want = (a, val(a, 3))
        elif fc == 15:
            args, kw = (15, a), {"output_value": [val(a, j) & 1 for j in range(n)]}
            want = (a, n)
        elif fc == 16:
            args, kw = (16, a), {"output_value": [val(a, j) for j in range(n)]}
            want = (a, n)
        elif fc == 22:
            args, kw = (22, a), {"and_mask": val(a, 1), "or_mask": val(a, 2)}
            want = (a, val(a, 1), val(a, 2))
        elif fc == 23:
            args, kw = (23, a, n), {"output_value": [1, 2], "write_starting_address_fc23": a}
            want = tuple(val(a, j) for j in range(n))
        else:
            args, kw = (43, 0), {"output_value": [1, n]}
            want = tuple(normal(bytes((43, 14, 1, n)))[1:])
        res, exc = call(m.execute, unit, *args, **kw)
        k.ops_done += 1
        what = "%s call %d %s unit %d fc %d, %s" % (plan["kind"], i, c["b"], unit, fc,
                                                    "sent %s" % short(cur.get("out"), 100))
        if exc is None:
            if tuple(res) != want and not lucky(cur, unit):
                raise Violation("data from a damaged, foreign or stale frame", "%s: %s instead of %s" % (
                    what, short(res), short(want)))
            k.probe("returned")
            if c["b"] in ("silent", "wrong_unit", "late", "exc"):
                raise Violation("data without an answer", "%s: %s" % (what, short(res)))
        else:
            k.probe("raised")
            if "ModbusError" in errname(w, exc) and not (c["b"] == "exc" and exc.get_exception_code() == 1 + n % 8) \
                    and not lucky(cur, unit):
                if not (c["b"] == "exc_damaged" and exc.get_exception_code() == 1 + n % 8):
                    raise Violation("exception code of a damaged, foreign or stale frame", "%s: code %s" % (
                        what, exc.get_exception_code()))
            elif c["b"] == "ok" or c["b"] == "exc" and "ModbusError" not in errname(w, exc):
                raise Violation("intact answer refused", "%s: %s: %s" % (what, ename(exc), exc))


def lucky(cur, unit):
    """the altered bytes happen to hold another valid frame for the master"""
    out = bytes(cur.get("out") or b"")
    if out == bytes(cur.get("good") or b""):
        return False
    return any(rtu_ok(out[:j]) and out[0] == unit for j in range(4, len(out) + 1) if out[:j] != cur.get("good"))
