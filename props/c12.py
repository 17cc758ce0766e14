"""C12 block and slave tables stay consistent"""
from dst.kit import *

WHAT = ("1-4 threads issuing add_block/remove_block/remove_all_blocks/add_slave/get_slave/remove_slave/"
        "remove_all_slaves, set_values/get_values and requests, on one slave, one databank or two servers sharing it")
STALL = (0.2, 4)
RUNS = {"quick": 20000, "thorough": 400000}

FC_R = {1: 1, 2: 2, 3: 3, 4: 4}


# ------------------------------------------------------------------ model: a slave is a tuple of blocks
# block = (name, type, start, size, values)
def m_add(st, name, typ, start, size):
    errs = set()
    if size <= 0 or start < 0:
        errs.add("InvalidArgumentError")
    if any(b[0] == name for b in st):
        errs.add("DuplicatedKeyError")
    if typ not in (1, 2, 3, 4):
        errs.add("InvalidModbusBlockError")
    elif size > 0 and start >= 0 and any(
            b[1] == typ and start < b[2] + b[3] and b[2] < start + size for b in st):
        errs.add("OverlapModbusBlockError")
    if errs:
        return errs, st
    return None, tuple(sorted(st + ((name, typ, start, size, (0,) * size),)))


def m_remove(st, name):
    if not any(b[0] == name for b in st):
        return {"MissingKeyError"}, st
    return None, tuple(b for b in st if b[0] != name)


def m_get(st, name, addr, n):
    for b in st:
        if b[0] == name:
            if addr < b[2] or addr + n > b[2] + b[3]:
                return {"OutOfModbusBlockError"}, None
            return None, b[4][addr - b[2]:addr - b[2] + n]
    return {"MissingKeyError"}, None


def m_set(st, name, addr, vals):
    for b in st:
        if b[0] == name:
            if addr < b[2] or addr + len(vals) > b[2] + b[3]:
                return {"OutOfModbusBlockError"}, st
            nv = b[4][:addr - b[2]] + tuple(vals) + b[4][addr - b[2] + len(vals):]
            return None, tuple(sorted(tuple(x for x in st if x[0] != name) + ((name, b[1], b[2], b[3], nv),)))
    return {"MissingKeyError"}, st


_lay = {}


def layout(st):
    key = tuple(b[:4] for b in st)
    lay = _lay.get(key)
    if lay is None:
        if len(_lay) > 5000:
            _lay.clear()
        lay = _lay[key] = Layout([list(b) for b in key])
    return lay


def m_req(st, pdu, resp):
    """next states consistent with the answer"""
    lay = layout(st)
    flat = sum((b[4] for b in st), ())
    out = []
    for ns in lay.accept(flat, pdu, resp):
        out.append(unflat(st, ns))
    return out


def unflat(st, flat):
    pos = 0
    blocks = []
    for b in st:
        blocks.append(b[:4] + (flat[pos:pos + b[3]],))
        pos += b[3]
    return tuple(blocks)


# ------------------------------------------------------------------ generation
NAMES = ["a", "b", "c", "A", "a ", "0"]


def gen_block_op(rng, g, types, span, sizes, wildness, off=0):
    r = rng.random()
    name = rng.choice(NAMES)
    if r < 0.42:
        start = off + rng.randrange(span)
        size = rng.choice(sizes)
        typ = rng.choice(types)
        if rng.random() < wildness:
            start, size, typ = rng.choice([(-1, 1, 1), (0, 0, 3), (1, -2, 3), (2, 2, 9), (start, size, 0), (-1, 0, 7)])
        return ["add", name, typ, start, size]
    if r < 0.56:
        return ["del", name]
    if r < 0.59:
        return ["clear"]
    start = off + rng.randrange(span)
    n = rng.choice([1, 1, 2, 3])
    if r < 0.70:
        return ["set", name, start, [rng.randrange(2) if 3 not in types and 4 not in types else g.val()
                                     for _ in range(n)]]
    if r < 0.80:
        return ["get", name, start, n]
    t = rng.choice(types)
    if t in (3, 4) and rng.random() < 0.5:
        t = 3
        return ["pdu", (p_wregs(start, [g.val() for _ in range(n)]) if 3 in types else p_read(4, start, n)).hex()]
    if t == 1 and rng.random() < 0.5:
        return ["pdu", p_wcoils(start, [rng.randrange(2) for _ in range(n)]).hex()]
    return ["pdu", p_read(t, start, n).hex()]


def gen(rng, tier):
    g = Gen(rng)
    mode = rng.choice(["slave", "slave", "db", "mix"])
    nthreads = rng.choice([1, 1, 2, 2, 3, 4])
    types = rng.choice([[3], [3], [1], [3, 4], [1, 2], [3, 1]])
    if any(t in (1, 2) for t in types) and any(t in (3, 4) for t in types):
        types = [types[0]]
    span = rng.choice([6, 12, 30, 60])
    sizes = rng.choice([[1, 2, 3], [2, 4, 6], [1, 5, 10]])
    # sometimes at the end of the address space
    off = 65537 - span - max(sizes) if rng.random() < 0.15 else 0
    per = {1: rng.randint(6, 30), 2: rng.randint(3, 8), 3: rng.randint(2, 5), 4: rng.randint(2, 3)}[nthreads]
    ids = [1, 2, 255, 7]
    threads = []
    for t in range(nthreads):
        ops = []
        for _ in range(per):
            if mode == "slave" or (mode == "mix" and rng.random() < 0.5):
                ops.append(gen_block_op(rng, g, types, span, sizes, 0.06, off))
            else:
                r = rng.random()
                sid = rng.choice(ids[:rng.choice([1, 2, 4])])
                if r < 0.33:
                    if rng.random() < 0.06:
                        sid = rng.choice([0, -1, 256, 300])
                    ops.append(["sadd", sid])
                elif r < 0.55:
                    ops.append(["sdel", 100 if rng.random() < 0.15 else sid])
                elif r < 0.60:
                    ops.append(["sclear"])
                elif r < 0.8:
                    ops.append(["sget", sid])
                else:
                    ops.append(["sreq", sid])
        threads.append({"ops": ops})
    pre = []
    if rng.random() < 0.5 and nthreads > 1:
        pre = [gen_block_op(rng, g, types, span, sizes, 0, off) for _ in range(rng.randint(1, 6))]
        pre = [o for o in pre if o[0] in ("add", "set")]
    return {"pre": pre, "threads": threads, "via": rng.choice(["db", "server", "twoservers"]),
            "hook": rng.random() < 0.3}


# ------------------------------------------------------------------ run
def run(k, w, plan):
    db = w.modbus.Databank()
    if plan["via"] == "db":
        owners = [db]
    elif plan["via"] == "server":
        s = w.modbus_tcp.TcpServer(port=1502, databank=db)
        owners = [s]
    else:
        owners = [w.modbus_tcp.TcpServer(port=1502, databank=db), w.modbus_tcp.TcpServer(port=1503, databank=db)]
    base = db.add_slave(100)
    if plan["hook"]:
        def hook(args):
            k.probe("hook in the middle")
            k.sleep(50 * US)
        w.hooks.install_hook("modbus.ModbusBlock.setitem", hook)
        w.hooks.install_hook("modbus.Slave.handle_request", hook)
    # two histories: the tables of one slave, and the table of slaves
    hb, hs = Hist(k), Hist(k)
    tokens = {}       # id(slave object) -> token (objects kept alive)
    keep = []
    counter = [0]

    def expect(h, op, fn, model, render=str):
        """model(state) -> (errors or None, new state, value or ANY)"""
        val, exc = call(fn)
        if exc is not None:
            names = errname(w, exc)

            def step(st, names=names):
                errs, ns, _ = model(st)
                if errs is not None and (errs & set(names) or "*" in errs):
                    return [st]
                return []
            if not w_error(exc):
                raise Violation("undocumented error", "%s raised %r" % (op.label, exc))
            h.end(op, step, " raises %s" % names[0])
        else:
            def step(st, val=val):
                errs, ns, want = model(st)
                if errs is not None:
                    return []
                if want is not ANY and want != val:
                    return []
                return [ns]
            h.end(op, step, " -> %s" % (render(val),))
        return val

    def w_error(exc):
        # anything the library raises on purpose, or a plain Exception; never the accidents
        return not isinstance(exc, (TypeError, AttributeError, IndexError, RuntimeError, NameError,
                                    UnboundLocalError, AssertionError, ValueError)) \
            and not type(exc) is KeyError

    def do(op_):
        kind = op_[0]
        if kind == "add":
            op = hb.begin("add_block %s" % op_[1:])
            expect(hb, op, lambda: base.add_block(*op_[1:]) and None,
                   lambda st: m_add(st, *op_[1:]) + (ANY,))
        elif kind == "del":
            op = hb.begin("remove_block %s" % op_[1])
            expect(hb, op, lambda: base.remove_block(op_[1]), lambda st: m_remove(st, op_[1]) + (ANY,))
        elif kind == "clear":
            op = hb.begin("remove_all_blocks")
            expect(hb, op, lambda: base.remove_all_blocks(), lambda st: (None, (), ANY))
        elif kind == "set":
            op = hb.begin("set_values %s" % op_[1:])
            expect(hb, op, lambda: base.set_values(op_[1], op_[2], op_[3]),
                   lambda st: m_set(st, op_[1], op_[2], op_[3]) + (ANY,))
        elif kind == "get":
            op = hb.begin("get_values %s" % op_[1:])

            def model(st):
                errs, vals = m_get(st, op_[1], op_[2], op_[3])
                return errs, st, vals
            expect(hb, op, lambda: tuple(base.get_values(op_[1], op_[2], op_[3])), model)
        elif kind == "pdu":
            pdu = bytes.fromhex(op_[1])
            op = hb.begin("request %s" % op_[1])
            resp = bytes(base.handle_request(pdu))
            hb.end(op, lambda st: m_req(st, pdu, resp), " -> %s" % resp.hex())
        else:
            slave_op(op_)

    # table of slaves: state = sorted tuple of (id, token)
    def slave_op(op_):
        kind = op_[0]
        counter[0] += 1
        owner = owners[counter[0] % len(owners)]
        if kind == "sadd":
            sid = op_[1]
            counter[0] += 1
            tok = counter[0]
            op = hs.begin("add_slave %d (#%d)" % (sid, tok))

            def model(st):
                if sid <= 0 or sid > 255:
                    return {"*"}, st, ANY
                if any(e[0] == sid for e in st):
                    return {"DuplicatedKeyError"}, st, ANY
                return None, tuple(sorted(st + ((sid, tok),))), ANY

            def go():
                s = owner.add_slave(sid)
                tokens[id(s)] = tok
                keep.append(s)
                return None
            expect(hs, op, go, model)
        elif kind == "sdel":
            op = hs.begin("remove_slave %d" % op_[1])
            expect(hs, op, lambda: owner.remove_slave(op_[1]) and None,
                   lambda st: (None, tuple(e for e in st if e[0] != op_[1]), ANY)
                   if any(e[0] == op_[1] for e in st) else ({"MissingKeyError"}, st, ANY))
        elif kind == "sclear":
            op = hs.begin("remove_all_slaves")
            expect(hs, op, lambda: owner.remove_all_slaves() and None, lambda st: (None, (), ANY))
        elif kind == "sget":
            op = hs.begin("get_slave %d" % op_[1])

            def model(st):
                for e in st:
                    if e[0] == op_[1]:
                        return None, st, e[1]
                return {"MissingKeyError"}, st, ANY

            val, exc = call(owner.get_slave, op_[1])
            # another thread may have just created it: its token is known when add_slave returned
            if exc is None:
                held = val
                late.append((op, held, op_[1]))
                op.ret = stamp(k)
                op.step = None
                keep.append(held)
                k.ops_done += 1
            else:
                names = errname(w, exc)
                if not w_error(exc):
                    raise Violation("undocumented error", "%s raised %r" % (op.label, exc))
                hs.end(op, lambda st: [st] if not any(e[0] == op_[1] for e in st) and "MissingKeyError" in names
                       else [], " raises %s" % names[0])
        elif kind == "sreq":
            op = hs.begin("request to unit %d" % op_[1])
            q = w.modbus_tcp.TcpQuery()
            resp = db.handle_request(q, mbap(5, op_[1], b"\x07"))
            got = bytes(resp) if resp else b""
            hs.end(op, lambda st: [st] if bool(got) == any(e[0] == op_[1] for e in st) else [],
                   " -> %s" % (got.hex() or "nothing"))

    late = []
    for o in plan["pre"]:
        do(o)

    def body(spec):
        for op_ in spec["ops"]:
            do(op_)

    stalling(k)
    tasks = [k.spawn(body, (t,), "T%d" % i, harness=True) for i, t in enumerate(plan["threads"])]
    for t in tasks:
        k.join(t)
    # resolve identities of the slaves returned by get_slave
    for op, held, sid in late:
        tok = tokens.get(id(held))
        op.label += " -> #%s" % tok
        op.step = lambda st, tok=tok, sid=sid: [st] if any(e == (sid, tok) for e in st) else []
    # final view: every block ever asked for, by name and by request
    seen = []
    for spec in [{"ops": plan["pre"]}] + plan["threads"]:
        for o in spec["ops"]:
            if o[0] == "add" and o[2] in (1, 2, 3, 4) and o[4] > 0 and o[3] >= 0 and o[1:] not in seen:
                seen.append(o[1:])
    for name, typ, start, size in seen[:14]:
        do(["get", name, start, size])
        do(["pdu", p_read(FC_R[typ], start, size).hex()])
        do(["pdu", p_read(FC_R[typ], start, 1).hex()])
    # removal finds every block that is left
    for name in sorted(set(s[0] for s in seen)):
        do(["del", name])
    for name, typ, start, size in seen[:6]:
        do(["pdu", p_read(FC_R[typ], start, 1).hex()])
        do(["add", name, typ, start, size])
    if hs.ops:
        for sid in (1, 2, 255, 7):
            do(["sreq", sid])
    hb.check((), "block tables not linearizable")
    # slave 100 is there from the start and only remove_all_slaves removes it
    tokens[id(base)] = 0
    hs.check(((100, 0),), "slave table not linearizable")


ANY = object()

