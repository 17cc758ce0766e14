"""C24 slaves created with one memory map serve the same data, others share nothing"""
from dst.kit import *
from props.c12 import m_add, m_get, m_remove, m_set, unflat

WHAT = ("2-5 slaves of one or two databanks, some created with the same memory map (empty or with blocks), some with another one or "
        "none, and maps which give several block types the same list, used by requests (direct, over TCP servers, broadcast) and by their own methods; one thread changing also the tables, "
        "or 2-4 threads which read and write")
STALL = (0.2, 4)
RUNS = {"quick": 12000, "thorough": 300000}
PORT = 1502
TYPES = (1, 2, 3, 4)


class Shared(Layout):
    """a slave some of whose block types share their blocks"""
    alias = {}

    def find(self, typ, addr, n):
        return Layout.find(self, self.alias.get(typ, typ), addr, n)


def layout(st, alias):
    lay = Shared([list(b[:4]) for b in st])
    lay.alias = alias
    return lay


def gen_table_op(rng, g, nsl):
    s = rng.randrange(nsl)
    name = rng.choice("abcdef")
    r = rng.random()
    if r < 0.45:
        return ["add", s, name, rng.choice([1, 2, 3, 3, 3, 4, 4, 9 if rng.random() < 0.1 else 3]), rng.randrange(12),
                rng.choice([1, 2, 3, 4, 6, 12, 0 if rng.random() < 0.1 else 2])]
    if r < 0.65:
        return ["remove", s, name]
    if r < 0.70:
        return ["clear", s]
    if r < 0.80:
        return ["renew", s]
    return ["same", s, name, rng.choice(TYPES), rng.randrange(12), rng.choice([1, 2, 4])]


def gen(rng, tier):
    g = Gen(rng)
    nsl = rng.choice([2, 2, 3, 4, 5])
    slaves = []
    ids = {0: set(), 1: set()}
    ndb = rng.choice([1, 1, 2])
    for i in range(nsl):
        db = rng.randrange(ndb)
        u = rng.choice([x for x in (1, 2, 3, 9, 100, 255) if x not in ids[db]])
        ids[db].add(u)
        # map 0 is shared by the first two at least
        slaves.append({"db": db, "u": u, "map": 0 if i < 2 else rng.choice([0, 0, 1, 1, None])})
    pre = []
    for m in (0, 1):
        if rng.random() < 0.5:
            for t in rng.sample(TYPES, rng.choice([1, 2, 4])):
                pre.append([m, t, rng.choice([0, 3]), rng.choice([4, 8])])
    threads = []
    mt = rng.random() < 0.4
    blocks = [["x", t, 0, 12] for t in TYPES]
    if mt:
        fixed = []
        for i in range(nsl):
            for t in TYPES:
                fixed.append(["b%d%d" % (i, t), i, t, 12 + 8 * i, rng.choice([2, 5, 8])])
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(2, 5)):
                name, own, t, start, size = rng.choice([f for f in fixed if f[1] in (0, 1)] if rng.random() < 0.7 else fixed)
                a = rng.randrange(min(size, 3))
                n = rng.randint(1, size - a)
                m = rng.choice(["get", "set", "read", "read", "write", "write", "write"] if t in (1, 3) else ["get", "set", "set", "read", "read"])
                vals = [g.val() if t > 2 else rng.randrange(2) for _ in range(n)]
                ops.append([m, rng.random(), name, own, t, start + a, n, vals, rng.random() < 0.5, rng.choice([0, 0, 1, 5])])
            threads.append(ops)
    else:
        fixed = []
        ops = []
        for _ in range(rng.randint(4, 24)):
            r = rng.random()
            if r < 0.3 or len(ops) < 2:
                ops.append(gen_table_op(rng, g, nsl))
            elif r < 0.45:
                n = rng.choice([1, 1, 2, 3])
                ops.append(["set", rng.randrange(nsl), rng.choice("abcdef"), rng.randrange(12), [g.val() for _ in range(n)]])
            elif r < 0.55:
                ops.append(["get", rng.randrange(nsl), rng.choice("abcdef"), rng.randrange(12), rng.choice([1, 2, 4])])
            else:
                ops.append([rng.choice(["req", "req", "req", "tcp", "tcp", "bcast"]), rng.randrange(nsl),
                            g.pdu(blocks, (1, 2, 3, 4, 5, 6, 15, 16, 22, 23), 0.05, 4).hex()])
        threads.append(ops)
    alias = [[], []]
    if not mt:
        for m in (0, 1):
            alias[m] = rng.choice([[], [], [], [[1, 3], [2, 3], [4, 3]], [[1, 3]], [[4, 3], [2, 1]], [[2, 1]], [[4, 3]]])
    return {"alias": alias, "slaves": slaves, "ndb": ndb, "pre": pre, "fixed": fixed, "threads": threads, "mt": mt,
            "net": netcfg(rng, 0.6), "via": rng.choice(["server", "databank"])}


def valid(plan):
    s = plan["slaves"]
    return len(s) >= 2 and len(set((x["db"], x["u"]) for x in s)) == len(s) and bool(plan["threads"]) and \
        all(0 <= f[1] < len(s) for f in plan["fixed"]) and \
        all(o[3 if plan["mt"] else 1] < len(s) for t in plan["threads"] for o in t)


def run(k, w, plan):
    D = w.defines
    codes = {1: D.COILS, 2: D.DISCRETE_INPUTS, 3: D.HOLDING_REGISTERS, 4: D.ANALOG_INPUTS}
    maps = []
    model = {}                    # key of a memory -> blocks
    alias = {}
    for m in (0, 1):
        alias[m] = dict(plan["alias"][m])
        mem = dict((codes[t], []) for t in TYPES)
        for t, other in plan["alias"][m]:
            mem[codes[t]] = mem[codes[other]]
        st = ()
        for i, (pm, t, start, size) in enumerate(plan["pre"]):
            t = alias[m].get(t, t)
            if pm == m and m_add(st, "pre%d" % i, t, start, size)[0] is None:
                mem[codes[t]].append(w.modbus.ModbusBlock(start, size, "pre"))
                st = m_add(st, "pre%d" % i, t, start, size)[1]
        maps.append(mem)
        model[m] = st
    dbs = [w.modbus.Databank() for _ in range(plan["ndb"])]
    servers = [w.modbus_tcp.TcpServer(port=PORT + i, databank=db) for i, db in enumerate(dbs)]
    owners = servers if plan["via"] == "server" else dbs
    slaves, key = [], []
    for i, s in enumerate(plan["slaves"]):
        kw = {} if s["map"] is None else {"memory": maps[s["map"]]}
        slaves.append(owners[s["db"]].add_slave(s["u"], **kw))
        key.append(s["map"] if s["map"] is not None else "own%d" % i)
        model.setdefault(key[i], ())
        alias.setdefault(key[i], {})
    for s in servers:
        s.start()
    k.sleep(30 * MS)
    if plan["mt"]:
        threads(k, w, plan, slaves, key, model)
    else:
        sequence(k, w, plan, slaves, key, model, owners, maps, alias)
    for s in servers:
        s.stop()


def client(k, w, db):
    cli = RawClient(w.net, ("127.0.0.1", PORT + db))
    if not cli.connect(5 * SEC):
        raise Violation("not serving", "no connection")
    return cli


def sequence(k, w, plan, slaves, key, model, dbs, maps, alias):
    stalling(k)
    clis = [None] * len(dbs)
    stale = set()
    tid = [0]
    gone = [0]

    def tcp(db, unit, pdu):
        if clis[db] is None:
            clis[db] = client(k, w, db)
        tid[0] += 1
        return raw_request(k, clis[db], tid[0], unit, pdu)

    def expect(what, exc, errs):
        if (ename(exc) if exc is not None else None) not in (errs or {None}):
            raise Violation("wrong outcome", "%s: %r instead of %s" % (what, exc, sorted(errs or ["success"])))

    def request(i, pdu, resp, what):
        st = model[key[i]]
        nxt = [unflat(st, x) for x in layout(st, alias[key[i]]).accept(sum((b[4] for b in st), ()), pdu, resp)] \
            if resp is not None else []
        if not nxt:
            raise Violation("wrong answer", "%s: %s, memory %s" % (what, None if resp is None else short(resp.hex()), short(model[key[i]])))
        model[key[i]] = nxt[0]

    for n, o in enumerate(plan["threads"][0]):
        i = o[1]
        s, ky, spec = slaves[i], key[i], plan["slaves"][i]
        what = "step %d %s" % (n, short(o, 80))
        k.ops_done += 1
        if o[0] in ("add", "same", "remove", "set", "get"):
            nm = "%s@%d" % (o[2], i)
            if nm in stale:
                continue
        if o[0] == "add":
            _, exc = call(s.add_block, o[2], codes_of(w, o[3]), o[4], o[5])
            errs, model[ky] = m_add(model[ky], nm, alias[ky].get(o[3], o[3]), o[4], o[5])
            expect(what, exc, errs)
        elif o[0] == "same":
            # the same block through every slave: only one succeeds where they share the memory
            for j, other in enumerate(slaves):
                nm = "%s@%d" % (o[2], j)
                if nm in stale:
                    continue
                _, exc = call(other.add_block, o[2], codes_of(w, o[3]), o[4], o[5])
                errs, model[key[j]] = m_add(model[key[j]], nm, alias[key[j]].get(o[3], o[3]), o[4], o[5])
                expect("%s slave %d" % (what, j), exc, errs)
        elif o[0] == "remove":
            _, exc = call(s.remove_block, o[2])
            errs, model[ky] = m_remove(model[ky], nm)
            expect(what, exc, errs)
        elif o[0] == "clear":
            _, exc = call(s.remove_all_blocks)
            expect(what, exc, None)
            for b in model[ky]:
                if not b[0].endswith("@%d" % i):
                    stale.add(b[0])              # its slave still knows the name
            model[ky] = ()
            stale -= set(x for x in stale if x.endswith("@%d" % i))
        elif o[0] == "renew":
            dbs[spec["db"]].remove_slave(spec["u"])
            kw = {} if spec["map"] is None else {"memory": maps[spec["map"]]}
            slaves[i] = dbs[spec["db"]].add_slave(spec["u"], **kw)
            gone[0] += 1
            if spec["map"] is None:
                model[ky] = ()
            else:
                model[ky] = tuple(sorted((b[0].replace("@%d" % i, "@gone%d" % gone[0]) if b[0].endswith("@%d" % i) else b[0],) + b[1:]
                                         for b in model[ky]))
            stale -= set(x for x in stale if x.endswith("@%d" % i))
        elif o[0] == "set":
            b = [x for x in model[ky] if x[0] == nm]
            vals = [v & 1 for v in o[4]] if b and b[0][1] < 3 else o[4]
            addr = o[3] if not b or n % 5 == 0 else b[0][2] + o[3] % b[0][3]
            _, exc = call(s.set_values, o[2], addr, vals)
            errs, model[ky] = m_set(model[ky], nm, addr, vals)
            expect(what, exc, errs)
        elif o[0] == "get":
            b = [x for x in model[ky] if x[0] == nm]
            addr = o[3] if not b or n % 5 == 0 else b[0][2] + o[3] % b[0][3]
            res, exc = call(s.get_values, o[2], addr, o[4])
            errs, want = m_get(model[ky], nm, addr, o[4])
            expect(what, exc, errs)
            if exc is None and tuple(res) != tuple(want):
                raise Violation("wrong values", "%s: %s instead of %s" % (what, short(res), short(want)))
        elif o[0] == "bcast":
            pdu = bytes.fromhex(o[2])
            if pdu[0] not in (5, 6, 15, 16, 22):
                continue
            if clis[spec["db"]] is None:
                clis[spec["db"]] = client(k, w, spec["db"])
            clis[spec["db"]].send(mbap(7, 0, pdu))
            k.probe("broadcasts")
            for j, x in enumerate(plan["slaves"]):
                if x["db"] == spec["db"]:
                    st = model[key[j]]
                    lay = layout(st, alias[key[j]])
                    knd, _, _, new = lay.request(sum((b[4] for b in st), ()), pdu)
                    if knd == "ok":
                        model[key[j]] = unflat(st, new)
            # the broadcast has been handled before the next request of the connection is
            p = p_read(3, 0, 1)
            request(i, p, tcp(spec["db"], spec["u"], p), what + " then a read")
        else:
            pdu = bytes.fromhex(o[2])
            if o[0] == "req":
                resp, exc = call(slaves[i].handle_request, pdu)
                if exc is not None:
                    raise Violation("request failed", "%s: %r" % (what, exc))
            else:
                resp = tcp(spec["db"], spec["u"], pdu)
            request(i, pdu, resp, what)
    # at the end every slave shows all
    for i, spec in enumerate(plan["slaves"]):
        for b in model[key[i]]:
            t = [x for x in TYPES if alias[key[i]].get(x, x) == b[1]][n % 2 - 1]
            p = p_read(t, b[2], b[3])
            request(i, p, tcp(spec["db"], spec["u"], p), "at the end: slave %d %s" % (i, p.hex()))
        for t in TYPES:
            for a in range(0, 40, 3):
                p = p_read(t, a, 1)
                resp, exc = call(slaves[i].handle_request, p)
                request(i, p, resp, "at the end: slave %d %s" % (i, p.hex()))


def codes_of(w, t):
    D = w.defines
    return {1: D.COILS, 2: D.DISCRETE_INPUTS, 3: D.HOLDING_REGISTERS, 4: D.ANALOG_INPUTS}.get(t, t)


def threads(k, w, plan, slaves, key, model):
    for name, own, t, start, size in plan["fixed"]:
        slaves[own].add_block(name, codes_of(w, t), start, size)
    hists = {}
    start0 = dict((f[0], f) for f in plan["fixed"])
    stalling(k)

    def items(own, t, addr, n):
        for j in range(n):
            yield hists.setdefault((key[own], t, addr + j), Hist(k))

    def body(ops, last):
        clis = {}
        tid = 0
        for m, pick, name, own, t, addr, n, vals, tcp, gap in ops:
            k.sleep(gap * MS)
            # any slave with that memory
            peers = [j for j in range(len(slaves)) if key[j] == key[own]]
            j = own if m in ("get", "set") else peers[int(pick * len(peers))]
            spec = plan["slaves"][j]
            what = "%s slave %d %d %d %d" % (m, j, t, addr, n)
            hs = list(items(own, t, addr, n))
            opl = [h.begin(what) for h in hs]
            if m == "set":
                slaves[j].set_values(name, addr, vals)
                got = vals
            elif m == "get":
                got = slaves[j].get_values(name, addr, n)
            else:
                if m == "read":
                    pdu = p_read(t, addr, n)
                elif n == 1 and pick < 0.5:
                    pdu = p_w1(5, addr, 0xFF00 if vals[0] else 0) if t == 1 else p_w1(6, addr, vals[0])
                else:
                    pdu = p_wcoils(addr, vals) if t == 1 else p_wregs(addr, vals)
                if tcp and not last:
                    if spec["db"] not in clis:
                        clis[spec["db"]] = client(k, w, spec["db"])
                    tid += 1
                    resp = raw_request(k, clis[spec["db"]], tid, spec["u"], pdu)
                else:
                    resp = slaves[j].handle_request(pdu)
                if resp is None or resp[:1] != pdu[:1]:
                    raise Violation("no answer", "%s: %s" % (what, resp))
                got = vals
                if m == "read":
                    data = bytes(resp[2:])
                    got = unpack_bits(data, n) if t < 3 else [int.from_bytes(data[2 * x:2 * x + 2], "big") for x in range(n)]
            for h, op, v in zip(hs, opl, got):
                if m in ("set", "write"):
                    h.end(op, lambda s, v=v: [v], " %s" % v)
                else:
                    h.end(op, lambda s, v=v: [s] if s == v else [], " -> %s" % v)
        for c in clis.values():
            c.close()

    ts = [k.spawn(body, (t, False), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    for t in ts:
        k.join(t)
    final = []
    for i in range(len(slaves)):
        for name, own, t, start, size in plan["fixed"]:
            if key[own] == key[i]:
                final.append(["read", [j for j in range(len(slaves)) if key[j] == key[own]].index(i) /
                              float(len([j for j in range(len(slaves)) if key[j] == key[own]])) + 1e-9, name, own, t, start, size, [],
                              False, 0])
    body(final, True)
    for (_, t, a), h in sorted(hists.items(), key=str):
        h.check(0, "value of type %d address %d" % (t, a))
