"""C10 an RTU server recovers from serial errors, noise and lost lines"""
from dst.kit import *

WHAT = ("an RtuServer on a simulated port whose reads, writes, flushes, opens, closes and settings fail, whose device is "
        "unplugged and comes back, with noise, half frames and requests on the line; stop during the faults; valid requests after")
STALL = (0.2, 4)
RUNS = {"quick": 16000, "thorough": 400000}
STUBS = "raw RTU master"
KEEP = ("blocks",)
OPS = ("read", "write", "flush", "in_waiting", "open", "close", "reconf")


def gen(rng, tier):
    g = Gen(rng)
    blocks = [["r", 3, 0, 8], ["c", 1, 0, 8]]
    ev = []
    ops = rng.sample(OPS, rng.randint(1, len(OPS)))
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        gap = rng.choice([0, 0, 50, 300, 1000, 3000, 10000, 40000]) + rng.randrange(300)
        if r < 0.3:
            ev.append([gap, "req", g.pdu(blocks, FCS, 0.1, 6).hex()])
        elif r < 0.55:
            ev.append([gap, "fault", rng.choice(ops), rng.choice([1, 1, 1, 2, 3, 6]), rng.choice([0, 0, 0, 1, 2, 3])])
        elif r < 0.62:
            ev.append([gap, "err"])
        elif r < 0.65:
            ev.append([gap, "storm", rng.choice(OPS), rng.choice([1, 5, 40])])
        elif r < 0.78:
            ev.append([gap, "unplug", rng.choice([0, 10, 100, 500, 2000, 8000, 30000, 80000])])
        elif r < 0.88:
            ev.append([gap, "noise", bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 20, 130, 300]))).hex()])
        else:
            f = rtu_frame(1, g.pdu(blocks, FCS, 0, 6))
            ev.append([gap, "half", f[:rng.randint(1, len(f) - 1)].hex()])
    return {"blocks": blocks, "ev": ev, "baud": rng.choice([9600, 19200, 115200]), "mode": rng.choice(["posix", "gap"]),
            "opened": rng.random() < 0.7, "stop": rng.randrange(len(ev)) if rng.random() < 0.3 else None,
            "stop2": rng.random() < 0.3, "final": [g.pdu(blocks, (1, 3, 6, 16, 15, 5, 22, 23), 0.05, 6).hex()
                                                   for _ in range(rng.randint(1, 3))],
            "verbose": rng.random() < 0.1}


def valid(plan):
    return True


def run(k, w, plan):
    bus = Bus(k, plan["baud"])
    ep = bus.endpoint("srv")
    ser = FakeSerial(ep, plan["baud"], mode=plan["mode"], opened=plan["opened"])
    server = w.modbus_rtu.RtuServer(ser)
    lay = Layout(plan["blocks"])
    slave = setup_slave(w, server, 1, plan["blocks"])
    server.set_verbose(plan["verbose"])
    raw = RtuRaw(bus, "m")
    died = []
    w.hooks.install_hook("modbus.Server.on_exception", lambda args: died.append(repr(args[1])) and None)
    silence = 2 * int(server.get_timeout() * SEC) + 3 * MS
    server.start()
    k.sleep(20 * MS)
    stalling(k)
    replug = [None]
    quiet_at = [0]

    def plug():
        replug[0] = None
        ep.plug()
        k.note("plugged")

    def heal():
        ser.faults.clear()
        ser.storm.clear()
        ep.err_pending = None
        if replug[0] is not None:
            k.cancel(replug[0])
            replug[0] = None
        if not ep.plugged:
            plug()

    def rest():
        """the line works and is silent"""
        heal()
        while True:
            until = max(bus.last_byte, bus.tx_free, quiet_at[0]) + silence
            if k.now >= until:
                break
            k.sleep(until - k.now)
        # the server needs a moment to open the port again, and the bytes lost then belong to no frame
        k.sleep(60 * MS)

    def stop(what):
        d = Deadline(k, what, 3 * SEC, "stop did not return")
        _, exc = call(server.stop)
        d.end()
        if exc is not None:
            raise Violation("stop raised", "%s: %r" % (what, exc))
        if ser.is_open:
            raise Violation("serial port open after stop", what)

    def final(what, pdus):
        unstall(k)
        rest()
        for p in pdus:
            pdu = bytes.fromhex(p)
            before = dump(slave, plan["blocks"])
            mark = raw.mark()
            raw.send(rtu_frame(1, pdu))
            n = rtu_resp_len(pdu)
            got = raw.collect(mark, n, 1 * SEC + 20 * bus.char * 10, silence)
            if not rtu_ok(got) or got[0] != 1:
                raise Violation("request not answered after recovery", "%s: request %s: heard %s%s" % (
                    what, short(pdu), short(got), ", server thread failed: %s" % died if died else ""))
            outs = lay.accept(before, pdu, got[1:-2])
            cur = dump(slave, plan["blocks"])
            if not outs or cur not in outs:
                raise Violation("wrong answer after recovery", "%s: request %s: %s, contents %s before %s" % (
                    what, short(pdu), short(got), short(cur), short(before)))
            k.sleep(silence)
            k.ops_done += 1
        k.probe("recoveries")

    for n, e in enumerate(plan["ev"]):
        k.sleep(e[0] * US)
        if e[1] == "req":
            raw.send(rtu_frame(1, bytes.fromhex(e[2])))
        elif e[1] == "fault":
            ser.faults[e[2]] = [0] * e[4] + [1] * e[3]
        elif e[1] == "storm":
            ser.storm[e[2]] = e[3] * MS
        elif e[1] == "err":
            ep.err_pending = True
            ep.kick()
        elif e[1] == "unplug":
            if ep.plugged:
                ep.unplug()
            if replug[0] is not None:
                k.cancel(replug[0])
            if e[2]:
                replug[0] = k.after(e[2] * US, plug)
            else:
                plug()
        elif e[1] == "noise":
            quiet_at[0] = max(quiet_at[0], bus.noise(bytes.fromhex(e[2])))
        elif e[1] == "half":
            raw.send(bytes.fromhex(e[2]))
            k.fault("half frame")
        if plan["stop"] == n:
            k.probe("stops during faults")
            stop("stop after event %d" % n)
            if plan["stop2"]:
                k.sleep(30 * MS)
                stop("second stop after event %d" % n)
            heal()
            k.sleep(20 * MS)
            del died[:]
            unstall(k)
            _, exc = call(server.start)
            if exc is not None:
                raise Violation("start raised", "%r" % (exc,))
            k.sleep(10 * MS)
            stalling(k)
    final("after the faults", plan["final"])
    if died:
        raise Violation("server thread failed", died[0])
    stop("final stop")
