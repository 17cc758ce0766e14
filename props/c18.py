"""C18 an RTU server speaks on the line only to answer a frame addressed to it"""
from dst.kit import *
from props.c04 import damage, gen_damage

WHAT = ("1-3 RtuServers and a scripted foreign device on one half-duplex line; a raw master sends valid, broadcast, foreign, "
        "damaged and overlapping requests and noise, with slow and failing hooks; every byte each server writes is accounted for")
RUNS = {"quick": 12000, "thorough": 300000}
KEEP = ("blocks",)
STUBS = "raw RTU master and a scripted foreign device on the bus"


def gen(rng, tier):
    g = Gen(rng, rng.random() < 0.7)
    ns = rng.choice([1, 1, 2, 2, 3])
    ids = rng.sample([1, 2, 3, 9, 10, 64, 131, 200, 247, 255], 6)
    servers = []
    for i in range(ns):
        servers.append({"units": [ids.pop() for _ in range(rng.choice([1, 1, 2]) if ns < 3 else 1)],
                        "blocks": g.blocks(maxsize=6, maxblocks=4), "missing": rng.random() < 0.5,
                        "mode": rng.choice(["posix", "gap"])})
    if rng.random() < 0.1:
        servers[0]["blocks"].append(["big", 3, 2000, 130])
    foreign = ids.pop()
    steps = []
    for _ in range(rng.randint(1, 14)):
        s = rng.choice(servers)
        kind = rng.choice(["req", "req", "req", "req", "bcast", "foreign", "foreign", "damaged", "noise", "overlap", "overlap",
                           "unknown", "fail", "malformed"])
        pdu = g.pdu(s["blocks"], FCS, 0.15, 8)
        if s["blocks"][-1][0] == "big" and rng.random() < 0.3:
            pdu = g.pdu([s["blocks"][-1]], (3, 16, 23), 0.0, 120)
        if kind == "malformed":
            pdu = g.malformed(pdu) or b"\x00"
        st = {"k": kind, "u": rng.choice(s["units"]), "p": pdu.hex(), "d": gen_damage(rng), "gap": rng.choice([0, 0, 3, 40])}
        if kind == "overlap":
            o = rng.choice(servers)
            st["u2"], st["p2"] = rng.choice(o["units"] + [foreign, 0]), g.pdu(o["blocks"], FCS, 0.15, 8).hex()
            st["slow"] = rng.choice([40, 100, 300])
            st["at"] = rng.choice([0.2, 0.5])
            st["one"] = rng.random() < 0.2       # only the first byte of it
        if kind == "fail":
            st["hook"] = rng.choice(["modbus.Server.before_handle_request", "modbus.Slave.handle_request",
                                     "modbus.Server.after_handle_request", "modbus_rtu.RtuServer.after_read",
                                     "modbus_rtu.RtuServer.before_write", "modbus_rtu.RtuServer.after_write"])
        steps.append(st)
    return {"unsigned": g.unsigned, "servers": servers, "foreign": foreign, "steps": steps,
            "baud": rng.choice([9600, 19200, 38400, 115200]), "verbose": rng.random() < 0.05}


def crc_ok(data):
    return len(data) >= 3 and rtu_frame(data[0], data[1:-2]) == bytes(data)


class Srv(object):
    pass


def run(k, w, plan):
    k.stall_p = 0
    bus = Bus(k, plan["baud"])
    margin = 60 * k.line_cost + 12 * k.sys_cost + 200 * US
    servers = []
    for i, spec in enumerate(plan["servers"]):
        s = Srv()
        s.name = "srv%d" % i
        s.lay = Layout(spec["blocks"], plan["unsigned"])
        s.blocks = spec["blocks"]
        ep = bus.endpoint(s.name)
        s.ser = FakeSerial(ep, plan["baud"], mode=spec["mode"])
        s.server = w.modbus_rtu.RtuServer(s.ser, error_on_missing_slave=spec["missing"])
        s.server.set_verbose(plan["verbose"])
        s.slaves, s.state = {}, {}
        for u in spec["units"]:
            s.slaves[u] = setup_slave(w, s.server, u, spec["blocks"], plan["unsigned"])
            s.state[u] = s.lay.initial()
        s.oldest = None

        def receive(b, ep=ep, s=s, orig=ep.receive):
            if not ep.buf:
                s.oldest = k.now
            orig(b)

        ep.receive = receive
        s.late = []

        def write(data, ep=ep, s=s, orig=s.ser.write):
            pend = (len(ep.buf), s.oldest) if ep.buf else None
            if pend and k.now - pend[1] > margin:
                s.late.append((k.now, pend[1], bytes(data)))
            return orig(data)

        s.ser.write = write
        s.server.start()
        servers.append(s)
    # a device that is not the library's
    stub = Stub(k, None, bus=bus, name="foreign")

    def respond(link, frame):
        if rtu_ok(frame) and frame[0] == plan["foreign"]:
            link.send(rtu_frame(frame[0], b"\x03\x02" + frame[2:4] if frame[1] == 3 else frame[1:6]), 4 * MS)
            k.probe("foreign answers")

    stub.respond = respond
    k.sleep(100 * MS)
    raw = RtuRaw(bus, "m")
    tmo = int(max(s.server.get_timeout() for s in servers) * SEC)
    slow = [0, None]
    failing = [None]

    def slow_hook(args):
        if slow[0] and args[0] is slow[1]:
            d, slow[0] = slow[0], 0
            k.sleep(d * MS)

    w.hooks.install_hook("modbus.Server.before_handle_request", slow_hook)

    def fail_hook(name):
        def hook(args):
            if failing[0] == name:
                failing[0] = None
                k.fault("hook fails: " + name.split(".", 1)[1])
                raise ValueError("hook failure")
        return hook

    for st in plan["steps"]:
        if st["k"] == "fail":
            w.hooks.install_hook(st["hook"], fail_hook(st["hook"]))

    def quiet():
        while True:
            until = max(bus.last_byte, bus.tx_free, stub.pending and k.now + 10 * MS) + 6 * tmo + 25 * MS
            if k.now >= until:
                return
            k.sleep(until - k.now)

    def owner(unit):
        for s in servers:
            if unit in s.slaves:
                return s
        return None

    for n, st in enumerate(plan["steps"]):
        k.sleep(st["gap"] * MS)
        pdu = bytes.fromhex(st["p"])
        unit = st["u"]
        kind = st["k"]
        if kind == "bcast":
            unit = 0
        elif kind == "foreign":
            unit = plan["foreign"]
        elif kind == "unknown":
            unit = 77
        data = rtu_frame(unit, pdu)
        if kind == "damaged":
            data = damage(data, st["d"])
            k.fault("line: " + st["d"][0])
        elif kind == "noise":
            data = bytes(st["d"][2]) * 2
            k.fault("line: noise")
        failing[0] = st["hook"] if kind == "fail" else None
        mark = len(bus.log)
        frames = [data]
        if kind == "overlap":
            # the next request arrives while the server is still busy with this one
            slow[:] = [st["slow"], owner(unit).server]
            raw.send(data)
            k.sleep(3 * tmo + int(st["slow"] * MS * st["at"]))
            k.fault("overlapping request")
            data2 = rtu_frame(st["u2"], bytes.fromhex(st["p2"]))
            if st["one"]:
                data2 = data2[:1]
            raw.send(data2)
            frames.append(data2)
        else:
            raw.send(data)
        quiet()
        if kind == "overlap":
            k.sleep(st["slow"] * MS)
            quiet()
        slow[0] = 0
        log = [(t0, name, d) for t0, t1, name, d in bus.log[mark:] if name.startswith("srv")]
        k.ops_done += 1
        what = "step %d %s %s" % (n, kind if kind != "fail" else "failing " + st["hook"], " + ".join(short(f, 60) for f in frames))
        for s in servers:
            if s.late:
                t, t0, d = s.late[0]
                raise Violation("answered while another request was arriving", "%s: %s wrote %s %.3f ms after the first byte" % (
                    what, s.name, short(d, 60), (t - t0) / 1e6))
        expect = [(owner(f[0]), f[0], f[1:-2]) for f in frames if crc_ok(f) and (owner(f[0]) or f[0] == 0)]
        for idx, (s, u, p) in enumerate(expect):
            if u == 0:
                for s in servers:
                    for v in s.slaves:
                        knd, resps, codes, new = s.lay.request(s.state[v], p)
                        if knd == "bad" and new != s.state[v]:
                            cur = dump(s.slaves[v], s.blocks)
                            new = cur if cur in (new, s.state[v]) else new
                        s.state[v] = new
                continue
            mine = [d for t, name, d in log if name == s.name and d[:1] == bytes((u,))]
            got = None
            if len(mine) == 1 and idx == 0 and len(expect) == 2 and expect[1][1] == u:
                mine = []          # the answer to the second one: the first was withheld
            if mine:
                # the first frame not used yet
                got = mine[0]
                for e in log:
                    if e[2] is got and e[1] == s.name:
                        log.remove(e)
                        break
            knd = s.lay.request(s.state[u], p)[0]
            if got is None:
                may = knd == "bad" or kind == "fail" or (kind == "overlap" and idx == 0 and len(frames) == 2)
                if not may:
                    raise Violation("no answer", "%s: unit %d" % (what, u))
                outs = s.lay.outcomes(s.state[u], p)
                if kind == "overlap":
                    k.probe("answer withheld")
            else:
                if not rtu_ok(got):
                    raise Violation("answer is not one whole frame", "%s: %s" % (what, short(got, 100)))
                outs = s.lay.accept(s.state[u], p, got[1:-2])
                if not outs and kind == "fail" and len(got) == 5 and got[1] == (p[0] | 0x80):
                    outs = s.lay.outcomes(s.state[u], p)
                if not outs:
                    raise Violation("wrong answer", "%s: %s" % (what, short(got, 100)))
                k.probe("answers")
            cur = dump(s.slaves[u], s.blocks)
            if idx + 1 < len(expect) and expect[idx + 1][1] in (u, 0):
                s.state[u] = outs[-1]
            else:
                if cur not in outs:
                    raise Violation("wrong contents", "%s: unit %d: %s not in %s" % (what, u, short(cur), short(outs)))
                s.state[u] = cur
        if log:
            raise Violation("unsolicited bytes on the line", "%s: %s wrote %s" % (what, log[0][1], short(log[0][2], 100)))
        for s in servers:
            for u in s.slaves:
                cur = dump(s.slaves[u], s.blocks)
                if cur != s.state[u]:
                    raise Violation("wrong contents", "%s: unit %d: %s instead of %s" % (
                        what, u, short(cur), short(s.state[u])))
