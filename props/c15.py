"""C15 simulator console and RPC users each get the answer to their own command"""
from dst.kit import *
from props.c12 import m_add, m_get, m_remove, m_req, m_set

WHAT = ("the simulator runs its console, its RPC interface and TCP/RTU servers; console lines, RPC clients (the package's and "
        "raw ones: cut, slow, silent, leaving early) and Modbus clients use the same slaves; unknown, malformed, failing and "
        "slow commands; quit from either interface")
STALL = (0.2, 4)
RUNS = {"quick": 12000, "thorough": 300000}
STUBS = "the console (scripted lines), raw RPC and Modbus TCP clients"

PORT, RPC = 1502, 2711
NAMES = ["a", "b\xe9\u20acquit", "big"]              # names which take several bytes in UTF-8
IDS = [1, 2, 7]
BIG = 2400                                     # a write of the whole block takes more than 12000 bytes
HOOK = "modbus.Server.before_handle_request"


def gen_cmd(rng, g, uid):
    """a command as a list of words"""
    r = rng.random()
    s = rng.choice(IDS + [1, 1, 1, 1])
    n = rng.choice(NAMES[:2])
    if r < 0.30:
        r = rng.random()
        if r < 0.6:
            return ["tick", str(uid)]
        if r < 0.8:
            return ["slow", str(uid), str(rng.choice([1, 1, 20, 20, 300, 300, 1500, 2300, 2300, rng.choice([2300, 2300, 6500, 14000])]))]
        return ["boom", str(uid)]
    if r < 0.50:
        a, c = rng.randrange(8), rng.choice([1, 1, 2, 4] * 4 + [0])
        return ["set_values", str(s), n, str(a)] + [str(g.val()) for _ in range(c)]
    if r < 0.65:
        return ["get_values", str(s), n, str(rng.randrange(8)), str(rng.choice([1, 2, 4, 8] * 3 + [0]))]
    if r < 0.69:
        c = rng.choice([100, 250, 400, BIG])
        return ["set_values", "1", "big", str(rng.choice([100, 100, 100, 99]) + rng.randrange(BIG - c + 1))] + [str(g.val()) for _ in range(c)]
    if r < 0.72:
        return ["get_values", "1", "big", rng.choice(["100", "100", "101", "0"]), str(rng.choice([150, BIG]))]
    if r < 0.75:
        return ["add_slave", str(rng.choice(IDS + [0, 256]))]
    if r < 0.79:
        return ["has_slave", str(rng.choice(IDS))]
    if r < 0.81:
        return ["remove_slave", str(rng.choice(IDS[1:]))]
    if r < 0.82:
        return ["remove_all_slaves"]
    if r < 0.86:
        return ["add_block", str(s), n, str(rng.choice([3, 3, 3, 4, 9])), str(rng.randrange(12)), str(rng.choice([1, 4, 8, 0]))]
    if r < 0.88:
        return ["remove_block", str(s), n]
    if r < 0.89:
        return ["remove_all_blocks", str(s)]
    if r < 0.91:
        return ["set_verbose", str(rng.randrange(2))]
    if r < 0.93:
        return rng.choice([["install_hook", HOOK, "h1"], ["install_hook", HOOK, "h2"], ["install_hook", HOOK, "h1"],
                           ["install_hook", HOOK, "h2"], ["install_hook", HOOK, "nope"], ["uninstall_hook", HOOK],
                           ["uninstall_hook", HOOK, "h1"], ["uninstall_hook", HOOK, "h2"], ["uninstall_hook", HOOK, "nope"]])
    return rng.choice([["frobnicate", str(uid)], ["noquit"], ["has_slave", "quit"], ["frob\u20acn\xefcate", str(uid)], ["has_slave", "\xe9"], ["get_values", "1"], ["set_values", "1", "a", "x", "3"], ["add_slave"],
                       ["add_slave", "one"], ["get_values", "1", "a", "0", "2.5"], ["", "tick"], ["Tick", "1"], [""],
                       ["has_slave"], ["set_verbose", "yes"], ["add_block", "1", "z", "3"], ["tic"], ["add"]])


def gen(rng, tier):
    g = Gen(rng)
    uid = [0]

    def cmd():
        uid[0] += 1
        return gen_cmd(rng, g, uid[0])

    users = []
    shape = rng.choice(["console", "rpc", "both", "both", "both"])
    if shape != "rpc":
        users.append({"kind": "console", "cmds": [[cmd(), rng.choice([0, 1, 5, 50, 600])] for _ in range(rng.randint(1, 6))]})
    for _ in range({"console": 0, "rpc": rng.randint(1, 3), "both": rng.randint(1, 2)}[shape]):
        kind = rng.choice(["client", "client", "raw"])
        cmds = []
        for _ in range(rng.randint(1, 5)):
            c = [cmd(), rng.choice([0, 0, 1, 5, 50, 600])]
            if kind == "raw":
                c.append(rng.choice(["nl", "eof", "pause", "crlf"]))
                c.append(rng.choice([0, 0, 0, 1, 3, 9]))
            cmds.append(c)
        users.append({"kind": kind, "cmds": cmds})
    if rng.random() < 0.3:
        users.append({"kind": "modbus", "cmds": [
            [g.pdu([["a", 3, 0, 8], [NAMES[1], 4, 0, 8]], (3, 3, 4, 6, 16), 0.05, 4).hex(), rng.choice([0, 1, 30])]
            for _ in range(rng.randint(1, 5))], "unit": rng.choice([1, 1, 2])})
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        uid[0] += 1
        users.append({"kind": rng.choice(["silent", "leave", "abort", "empty"]), "at": rng.choice([0, 1, 10, 200, 2000]),
                      "uid": uid[0]})
    return {"users": users, "quit": rng.choice(["console", "client", "raw"]), "early": rng.choice([None, None, None, 1, 20, 700]),
            "verbose": rng.choice([[], [1], [0], [1, 0], [0, 1]]), "rtu": rng.random() < 0.4, "again": rng.random() < 0.15, "clock": clockcfg(rng, 0.15), "net": netcfg(rng, 0.5)}


def valid(plan):
    return all(u["kind"] not in ("client", "raw", "console", "modbus") or u["cmds"] for u in plan["users"])


# ------------------------------------------------------------------ model: (slaves, hooks)
# slaves: sorted tuple of (id, blocks); blocks as in c12
class Bad(Exception):
    pass


def find(slaves, sid):
    for i, b in slaves:
        if i == sid:
            return b
    raise Bad()


def put_slave(slaves, sid, blocks):
    return tuple(sorted(tuple(x for x in slaves if x[0] != sid) + ((sid, blocks),)))


def chk(res):
    if res[0] is not None:
        raise Bad()
    return res[1]


def tup(vals):
    return " ".join(str(v) for v in vals)


def m_exec(state, a):
    """(new state, text) of a built-in command; raises Bad for an error.  text None: not compared"""
    slaves, hk = state
    c = a[0]
    if c == "add_slave":
        sid = int(a[1])
        if not 1 <= sid <= 255 or any(i == sid for i, _ in slaves):
            raise Bad()
        return (put_slave(slaves, sid, ()), hk), str(sid)
    if c == "has_slave":
        sid = int(a[1])
        return state, "1" if any(i == sid for i, _ in slaves) else "0"
    if c == "remove_slave":
        find(slaves, int(a[1]))
        return (tuple(x for x in slaves if x[0] != int(a[1])), hk), None
    if c == "remove_all_slaves":
        return ((), hk), None
    if c == "add_block":
        b = chk(m_add(find(slaves, int(a[1])), a[2], int(a[3]), int(a[4]), int(a[5])))
        return (put_slave(slaves, int(a[1]), b), hk), a[2]
    if c == "remove_block":
        b = chk(m_remove(find(slaves, int(a[1])), a[2]))
        return (put_slave(slaves, int(a[1]), b), hk), None
    if c == "remove_all_blocks":
        find(slaves, int(a[1]))
        return (put_slave(slaves, int(a[1]), ()), hk), None
    if c == "set_values":
        vals = [int(v) for v in a[4:]]
        b = chk(m_set(find(slaves, int(a[1])), a[2], int(a[3]), vals))
        return (put_slave(slaves, int(a[1]), b), hk), tup(vals)
    if c == "get_values":
        return state, tup(chk(m_get(find(slaves, int(a[1])), a[2], int(a[3]), int(a[4]))))
    if c == "set_verbose":
        return state, str(int(a[1]))
    if c == "install_hook":
        if a[2] not in ("h1", "h2"):
            raise Bad()
        return (slaves, hk + (a[2],)), None
    if c == "uninstall_hook":
        if len(a) < 3 or not a[2]:
            return (slaves, ()), None
        if a[2] not in hk:
            raise Bad()
        i = hk.index(a[2])
        return (slaves, hk[:i] + hk[i + 1:]), None
    raise Bad()


BUILTIN = ("add_slave", "has_slave", "remove_slave", "remove_all_slaves", "add_block", "remove_block", "remove_all_blocks",
           "set_values", "get_values", "set_verbose", "install_hook", "uninstall_hook")


def m_step(words, ok, text):
    """lin step of a built-in command which was answered"""
    def step(state):
        try:
            ns, want = m_exec(state, words)
        except (Bad, ValueError, IndexError, KeyError):
            return [] if ok else [state]
        if not ok or (want is not None and want != text):
            return []
        return [ns]
    return step


def m_set_echo(words, uid, text):
    """lin steps of set_values: the values are written, then read again for the answer; a Modbus client may write
    between"""
    def write(state):
        want = tup(int(v) for v in words[4:])
        return [(sl, hk + (uid,)) for sl, hk in m_step(words, True, want)(state)]

    def echo(state):
        slaves, hk = state
        if uid not in hk or not m_step(["get_values"] + words[1:4] + [str(len(words) - 4)], True, text)(state):
            return []
        return [(slaves, tuple(x for x in hk if x != uid))]
    return write, echo


def m_pending(words):
    def step(state):
        try:
            return [m_exec(state, words)[0]]
        except (Bad, ValueError, IndexError, KeyError):
            return [state]
    return step


def run(k, w, plan):
    run_clock(k, plan["clock"])
    S, _ = w.simulator, w.simulator_rpc_client
    for rnd in range(2 if plan["again"] and plan["early"] is None else 1):
        if rnd:
            k.sleep(130 * SEC)                            # the port is not usable before (TIME_WAIT)
        one(k, w, S, plan)


def one(k, w, S, plan):
    if plan["rtu"]:
        bus = Bus(k, 19200)
        ser = FakeSerial(bus.endpoint("srv"), 19200)
        server = S.CompositeServer([w.modbus_rtu.RtuServer, w.modbus_tcp.TcpServer], [(ser,), (PORT,)])
    else:
        ser = None
        server = w.modbus_tcp.TcpServer(port=PORT)
    sim, exc = call(S.Simulator, server)
    if exc is not None:
        raise Violation("simulator can not be created", "%r" % (exc,))
    slave = server.add_slave(1)
    blocks = (("a", 3, 0, 8, (0,) * 8), (NAMES[1], 4, 0, 8, (0,) * 8), ("big", 3, 100, BIG, (0,) * BIG))
    for b in blocks:
        slave.add_block(b[0], b[1], b[2], b[3])
    # the block "big" starts at 100
    state0 = (((1, tuple(sorted(blocks))),), ())
    hist = Hist(k)
    ran = {}                    # uid of a custom command -> number of executions
    st = {"busy": None, "quit": False, "ended": None, "end_exc": None, "hooks": 0}

    def custom(name):
        def fct(args):
            if st["busy"]:
                k.fail("commands overlap", "%s while %s" % (args[:2], st["busy"]))
            u = args[1]
            st["busy"] = args[:2]
            k.point()
            ran[u] = ran.get(u, 0) + 1
            if name == "slow":
                k.sleep(int(args[2]) * MS)
            k.point()
            st["busy"] = None
            if name == "boom":
                raise ValueError("boom%s" % u)
            return "%s-%s" % (name, u)
        return fct

    for nm in ("tick", "slow", "boom"):
        sim.add_command(nm, custom(nm))

    def hk(args):
        st["hooks"] += 1

    sim.declare_hook("h1", hk)
    sim.declare_hook("h2", lambda args: hk(args))

    def sim_body():
        _, st["end_exc"] = call(sim.start)
        st["left"] = k.now
        _, exc = call(sim.close)
        if st["end_exc"] is None:
            st["end_exc"] = exc
        st["ended"] = k.now

    sim_task = k.spawn(sim_body, (), "sim", harness=True)
    k.sleep(60 * MS)

    def judge(who, words, text, op):
        """the complete answer of a command"""
        what = "%s %r" % (who, short(" ".join(words), 80))
        c = words[0]
        okp = c + " done:"
        if c in ("tick", "slow"):
            if text != "%s done: %s-%s" % (c, c, words[1]):
                raise Violation("wrong answer", "%s: %r" % (what, short(text)))
        elif c == "boom":
            if text.startswith(okp) or "boom%s" % words[1] not in text:
                raise Violation("wrong answer", "%s: %r" % (what, short(text)))
        elif c in BUILTIN:
            ok = text.startswith(okp)
            if not ok and not text.startswith(c + " error"):
                raise Violation("wrong answer", "%s: %r" % (what, short(text)))
            if c == "uninstall_hook" and (len(words) < 3 or not words[2]):
                ok = True          # nothing to uninstall: reported in the log
            elif c == "uninstall_hook" and ok and words[2] in ("h1", "h2"):
                # not installed: reported in the log if there was never one
                hist.end(op, lambda s, m=m_step(words, True, ""): m(s) if words[2] in s[1] else [s], " -> " + short(text, 60))
                return
            if c == "set_values" and ok and words[4:] and any(u["kind"] == "modbus" for u in plan["users"]):
                st1, st2 = m_set_echo(words, ("set", len(hist.ops)), text[len(okp):].strip())
                hist.end(op, st1, " -> " + short(text, 60))
                hist.ops.append(lin.Op(op.inv, op.ret, "echo of " + op.label, st2, op.task))
            else:
                hist.end(op, m_step(words, ok, text[len(okp):].strip()), " -> " + short(text, 60))
            return
        else:
            if "error" not in text or "done" in text or (c and c not in text):
                raise Violation("wrong answer", "%s: %r" % (what, short(text)))
        if c in ("tick", "slow", "boom") and ran.get(words[1]) != 1:
            raise Violation("command not executed once", "%s: %s times" % (what, ran.get(words[1], 0)))
        k.ops_done += 1

    def begin(who, words):
        c = words[0]
        return hist.begin("%s %s" % (who, short(" ".join(words), 60))) if c in BUILTIN else None

    def unanswered(who, words, op, t0):
        """only possible when the simulator was told to quit"""
        if not st["quit"]:
            raise Violation("no answer", "%s %r" % (who, short(" ".join(words), 80)))
        if op is not None:
            op.step = m_pending(words)
        if words[0] in ("tick", "slow", "boom") and ran.get(words[1], 0) > 1:
            raise Violation("command not executed once", "%s %r: %d times" % (who, words, ran[words[1]]))
        k.probe("commands overtaken by quit")

    nslow = sum(1 for u in plan["users"] if u["kind"] in ("silent", "empty", "leave", "abort"))
    # the commands which all the users may have to wait for
    patience = 9 * SEC + 6 * SEC * nslow + 8 * SEC * len(plan["users"]) + sum(
        int(c[0][2]) * MS for u in plan["users"] if u["kind"] in ("console", "client", "raw")
        for c in u["cmds"] if c[0][0] == "slow")

    # ---- console
    con = {"text": "", "lines": []}

    def on_out(text):
        con["text"] += text
        while "\n" in con["text"]:
            line, _, con["text"] = con["text"].partition("\n")
            con["lines"].append(line.rstrip("\r"))

    w.console.on_write = on_out
    base = [0]

    def console_user(spec):
        for words, gap in spec["cmds"]:
            k.sleep(gap * MS)
            console_cmd(words)

    pend = []

    def console_cmd(words):
        """type a line and wait for its answer"""
        op = begin("console", words)
        n = len(con["lines"])
        w.console.type_line(" ".join(words) + "\n")
        t0 = k.now
        stall0 = k.stall_total
        while len(con["lines"]) <= n:
            if st["quit"] and st["ended"] is not None and k.now - st["ended"] > SEC:
                return unanswered("console", words, op, t0)
            if k.now - t0 > patience + k.stall_total - stall0:
                raise Violation("no answer", "console %r: %s" % (" ".join(words), k.describe_blocked()))
            k.sleep(2 * MS)
        k.sleep(1 * MS)
        if len(con["lines"]) != n + 1:
            raise Violation("more than one answer", "console %r: %s" % (" ".join(words), con["lines"][n:]))
        return judge("console", words, con["lines"][n], op)

    # ---- RPC with the client of the package
    def client_call(rc, words):
        c = words[0]
        i = [int(x) if x.lstrip("-").isdigit() else x for x in words]
        try:
            if c == "add_slave":
                return "%s done: %s" % (c, rc.add_slave(i[1]))
            if c == "has_slave":
                r = rc.has_slave(i[1])
                return "%s done: %s" % (c, {True: "1", False: "0"}[r])
            if c == "remove_slave":
                return "%s done: %s" % (c, rc.remove_slave(i[1]))
            if c == "add_block":
                return "%s done: %s" % (c, rc.add_block(i[1], words[2], i[3], i[4], i[5]))
            if c == "set_values":
                return "%s done: %s" % (c, rc.set_values(i[1], words[2], i[3], i[4:]))
            if c == "get_values":
                return "%s done: %s" % (c, tup(rc.get_values(i[1], words[2], i[3], i[4])))
            if c in ("remove_all_slaves", "remove_block", "remove_all_blocks", "install_hook", "uninstall_hook"):
                r = getattr(rc, c)(*(i[1:2] + words[2:] if c[0] == "r" else words[1:]))
                return c + " done:"
            return "%s done: %s" % (c, rc._rpc_call(" ".join(words)))
        except OSError:
            return None
        except Exception as e:
            return str(e) or None

    def usable(words):
        """commands which the methods of the client can send"""
        need = {"add_slave": 2, "has_slave": 2, "get_values": 5, "add_block": 6}.get(words[0], 0)
        num = words[1:2] + words[3:] if words[0] in ("set_values", "get_values", "add_block") else words[1:2]
        if words[0] in ("add_slave", "has_slave", "get_values", "set_values", "add_block", "remove_slave"):
            return len(words) >= need and all(x.isdigit() for x in num)
        return True

    def client_user(spec):
        for words, gap in spec["cmds"]:
            k.sleep(gap * MS)
            if usable(words) and words[0]:
                client_cmd(words)
            else:
                raw_cmd(words, "eof", 0)

    def client_cmd(words):
        rc = w.simulator_rpc_client.SimulatorRpcClient(timeout=patience / 1e9)
        op = begin("client", words)
        t0 = k.now
        text = client_call(rc, words)
        if text is None:
            return unanswered("client", words, op, t0)
        judge("client", words, text.strip("\r\n"), op)

    # ---- RPC with raw connections
    def raw_user(spec):
        for words, gap, end, cuts in spec["cmds"]:
            k.sleep(gap * MS)
            raw_cmd(words, end, cuts)

    def raw_cmd(words, end, cuts):
        op = begin("rpc", words)
        t0 = k.now
        stall0 = k.stall_total
        cli = RawClient(w.net, ("127.0.0.1", RPC))
        if not cli.connect(patience):
            return unanswered("rpc", words, op, t0)
        data = " ".join(words).encode()
        if end in ("nl", "crlf"):
            data += b"\n" if end == "nl" else b"\r\n"
        if cuts and k.stall_total == 0:
            step = max(1, len(data) // (cuts + 1))
            while data:
                cli.send(data[:step])
                data = data[step:]
                if data:
                    k.sleep(20 * MS)
        else:
            cli.send(data)
        if end == "eof":
            cli.half_close()
        cli.wait(lambda: cli.eof or cli.rst, patience + k.stall_total - stall0)
        text = bytes(cli.rx).decode()
        if not (cli.eof or cli.rst):
            raise Violation("no answer", "rpc %r" % short(" ".join(words)))
        cli.close()
        if not text:
            return unanswered("rpc", words, op, t0)
        if not text.endswith("\n") or text.count("\n") != 1:
            raise Violation("incomplete answer", "rpc %r: %r" % (short(" ".join(words)), short(text)))
        judge("rpc", words, text.rstrip("\r\n"), op)

    def modbus_user(spec):
        cli = RawClient(w.net, ("127.0.0.1", PORT))
        if not cli.connect(2 * SEC):
            if st["quit"]:
                return
            raise Violation("not serving", "no connection to the Modbus server")
        tid = 0
        for pdu, gap in spec["cmds"]:
            k.sleep(gap * MS)
            pdu = bytes.fromhex(pdu)
            tid += 1
            op = hist.begin("modbus %s" % pdu.hex())
            resp = raw_request(k, cli, tid, spec["unit"], pdu, 1 * SEC)

            def step(state, pdu=pdu, resp=resp):
                slaves, h = state
                try:
                    b = find(slaves, spec["unit"])
                except Bad:
                    return [state] if resp is None else []
                return [(put_slave(slaves, spec["unit"], nb), h) for nb in m_req(b, pdu, resp)] if resp is not None else []

            if resp is None and st["quit"]:
                hist.ops.remove(op)
                tainted.append(pdu)
                break
            hist.end(op, step, " -> %s" % (None if resp is None else resp.hex()))
        cli.close()

    tainted = []
    odd = []

    def odd_user(spec):
        k.sleep(spec["at"] * MS)
        cli = RawClient(w.net, ("127.0.0.1", RPC))
        if not cli.connect(patience):
            return
        odd.append(cli)
        k.fault("RPC client: " + spec["kind"])
        if spec["kind"] == "silent":
            return                                    # stays connected
        if spec["kind"] == "empty":
            cli.close()
            return
        cli.send(b"tick %d\n" % spec["uid"])
        k.sleep(rng_ms(spec) * MS)
        if spec["kind"] == "leave":
            cli.close()
        else:
            cli.abort()

    def rng_ms(spec):
        return (spec["uid"] * 7) % 5

    bodies = {"console": console_user, "client": client_user, "raw": raw_user, "modbus": modbus_user}
    stalling(k)
    ts = []
    for i, u in enumerate(plan["users"]):
        ts.append(k.spawn(bodies.get(u["kind"], odd_user), (u,), "%s%d" % (u["kind"], i), harness=True))

    def finish_quit():
        q = plan["quit"]
        kinds = [u["kind"] for u in plan["users"]]
        if q == "console" and plan["early"] is not None and "console" in kinds:
            q = "raw"                                   # the console is busy with its own commands
        st["quit"] = True
        bye = None
        if q == "console":
            n = len(con["lines"])
            w.console.type_line("quit\n")
            t0 = k.now
            while len(con["lines"]) <= n and k.now - t0 < patience + k.stall_total:
                k.sleep(5 * MS)
            bye = "".join(con["lines"][n:])
        elif q == "client":
            rc = w.simulator_rpc_client.SimulatorRpcClient(timeout=patience / 1e9)
            try:
                bye = rc._rpc_call("quit")
            except Exception as e:
                bye = str(e)
        else:
            cli = RawClient(w.net, ("127.0.0.1", RPC))
            if not cli.connect(patience):
                raise Violation("no answer", "RPC interface does not accept quit")
            cli.send(b"quit\n")
            cli.wait(lambda: cli.eof or cli.rst, patience)
            bye = bytes(cli.rx).decode()
            cli.close()
        if "bye" not in bye:
            raise Violation("wrong answer", "quit from %s: %r" % (q, short(bye)))
        d = Deadline(k, "close of the simulator", 8 * SEC + 6 * SEC * nslow + 3 * SEC * len(plan["users"]), "simulator does not end")
        k.join(sim_task)
        d.end()
        if st["end_exc"] is not None:
            raise Violation("simulator failed", "%r" % (st["end_exc"],))

    def verbosity(v):
        """set_verbose is for every server: the frames are logged, or not"""
        unstall(k)
        raw_cmd(["set_verbose", str(v)], "nl", 0)
        frames = [mbap(7000 + v, 1, p_read(3, 0, 1))]
        cli = RawClient(w.net, ("127.0.0.1", PORT))
        k.log_tap = []
        if not cli.connect(2 * SEC):
            raise Violation("not serving", "no connection to the Modbus server")
        cli.send(frames[0])
        cli.wait(lambda: len(cli.rx) > 0, 500 * MS)
        if ser is not None:
            frames.append(rtu_frame(99, p_read(4, v, 1)))
            if not line:
                line.append(bus.endpoint("other"))
            bus.transmit(line[0], frames[1])
            unstall(k)
        k.sleep(600 * MS)
        cli.close()
        text, k.log_tap = k.log_tap, None
        for f in frames:
            n = sum(1 for t in text if "-".join(str(b) for b in f) in t)
            if (n > 0) != bool(v):
                raise Violation("wrong effect", "set_verbose %d: request %s logged %d times" % (v, f.hex(), n))

    line = []

    if plan["early"] is not None:
        k.sleep(plan["early"] * MS)
        finish_quit()
    with Deadline(k, "users", 4 * patience, "user blocked"):
        for t in ts:
            k.join(t)
    if plan["early"] is None:
        # the state of the slaves is what the commands made of it
        if sim_task.done:
            raise Violation("simulator ended by itself", "%r" % (st["end_exc"],))
        for u in plan["users"]:
            if u["kind"] in ("leave", "abort"):
                t0 = k.now
                while u["kind"] == "leave" and not ran.get(str(u["uid"])) and k.now - t0 < patience:
                    k.sleep(50 * MS)
                n = ran.get(str(u["uid"]), 0)
                if n > 1 or (n == 0 and u["kind"] == "leave"):
                    raise Violation("command not executed once", "tick of a client which left: %d times" % n)
        for sid in IDS:
            for b in NAMES[:2]:
                for a in ([0, 8], [0, 1]):
                    op = hist.begin("get %d %s %s" % (sid, b, a))
                    res, exc = call(lambda: server.get_slave(sid).get_values(b, a[0], a[1]))
                    hist.end(op, m_step(["get_values", str(sid), b, str(a[0]), str(a[1])], exc is None,
                                        tup(res) if exc is None else ""), " -> %s" % (res if exc is None else ename(exc),))
        before = st["hooks"]
        op = hist.begin("hooks")
        cli = RawClient(w.net, ("127.0.0.1", PORT))
        if not cli.connect(2 * SEC):
            raise Violation("not serving", "no connection to the Modbus server")
        raw_request(k, cli, 99, 1, p_read(3, 0, 1), 300 * MS)
        cli.close()
        n = st["hooks"] - before
        hist.end(op, lambda s: [s] if len(s[1]) == n else [], " %d" % n)
        k.sleep(20 * MS)
        if "verbose" in plan:
            for v in plan["verbose"]:
                verbosity(v)
        finish_quit()
    if not tainted:
        hist.check(state0, "answers or slaves do not match the commands", 20000)
    n0 = dict(ran)
    for c in odd:
        c.close()
    if w.net.open_sockets():
        raise Violation("sockets held after quit", "%s" % w.net.open_sockets())
    for p in (PORT, RPC):
        if w.net.find_listener(("127.0.0.1", p)) is not None:
            raise Violation("port held after quit", "%d" % p)
    if ser is not None and ser.is_open:
        raise Violation("serial port open after quit", "")
    k.sleep(3 * SEC)
    if ran != n0 or con["text"]:
        raise Violation("activity after quit", "%s %s" % (ran, con["text"]))
    w.console.on_write = None
    w.console.lines[:] = []
    try:
        w.hooks.uninstall_hook(HOOK)
    except KeyError:
        pass
