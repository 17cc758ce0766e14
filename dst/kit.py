"""Helpers shared by the workloads."""
from . import lin
from .kernel import MS, SEC, US, HarnessError, Violation
from .model import *          # noqa
from .net import RawClient
from .ser import Bus, FakeSerial


def stamp(k):
    k.step += 1
    return k.step


def ename(exc):
    return type(exc).__name__


class Hist(object):
    """history of operations for the linearizability checker"""

    def __init__(self, k):
        self.k = k
        self.ops = []

    def begin(self, label):
        k = self.k
        op = lin.Op(stamp(k), None, label, None, k.current.name if k.current else "")
        self.ops.append(op)
        return op

    def end(self, op, step, text=""):
        k = self.k
        op.ret = stamp(k)
        op.step = step
        op.label += text
        k.ops_done += 1
        k.note("op %s" % op.label)

    def check(self, initial, what, limit=150000):
        ops = [o for o in self.ops if o.step is not None]
        ok = lin.check(ops, initial, limit)
        if ok is None:
            self.k.probe("linearizability undecided")
            return
        if not ok:
            raise Violation(what, lin.describe(ops))
        self.k.probe("histories linearizable")


def short(v, n=160):
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v).hex()
    s = str(v)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------------- raw peers
class RtuRaw(object):
    """harness-side RTU device on a bus: sends raw frames, collects what it hears"""

    def __init__(self, bus, name):
        self.bus = bus
        self.k = bus.k
        self.ep = bus.endpoint(name)
        self.ep.on_byte = self._byte
        self.heard = []            # (t, byte)
        self._waiter = None

    def _byte(self, b):
        self.heard.append((self.k.now, b))
        if self._waiter is not None:
            w, self._waiter = self._waiter, None
            self.k.wake(w)

    def send(self, data, gaps=None):
        """returns when the last byte is on the line"""
        end = self.bus.transmit(self.ep, data, gaps)
        if end > self.k.now:
            self.k.sleep(end - self.k.now)
        return end

    def mark(self):
        return len(self.heard)

    def since(self, mark):
        return bytes(b for _, b in self.heard[mark:])

    def collect(self, mark, n, timeout, silence=None):
        """wait until n bytes were heard after mark, or timeout; then for `silence` without bytes"""
        k = self.k
        end = k.now + timeout
        while len(self.heard) - mark < n and k.now < end:
            k.prepare_block()
            self._waiter = k.current
            k.block(end, ("rtu wait",))
            self._waiter = None
        if silence and len(self.heard) > mark:
            while True:
                until = self.heard[-1][0] + silence
                if k.now >= until:
                    break
                k.sleep(until - k.now)
        return self.since(mark)


def rtu_resp_len(pdu):
    """length of the normal RTU answer to a request pdu"""
    fc = pdu[0]
    if fc in (1, 2):
        return 5 + (int.from_bytes(pdu[3:5], "big") + 7) // 8
    if fc in (3, 4, 23):
        return 5 + 2 * int.from_bytes(pdu[3:5], "big")
    if fc == 7:
        return 5
    if fc == 22:
        return 10
    return 8


def raw_request(k, cli, tid, unit, pdu, timeout=10 * SEC):
    """one request on a raw TCP client whose received bytes are consumed frame by frame.
    -> response pdu, or None"""
    base = len(cli.rx)
    if not cli.send(mbap(tid, unit, pdu)):
        return None

    def whole():
        return cli.eof or cli.rst or split_mbap(cli.rx[base:])[0]

    cli.wait(whole, timeout)
    frames, rest = split_mbap(cli.rx[base:])
    if not frames:
        return None
    f = frames[0]
    if f[0] != tid or f[1] != 0 or f[3] != unit:
        raise Violation("wrong header", "request tid %d unit %d answered with %r" % (tid, unit, f[:4]))
    if len(frames) > 1 or rest:
        raise Violation("extra bytes", "after the answer: %s" % short(cli.rx[base:]))
    return f[4]


# ---------------------------------------------------------------------- random requests
class Gen(object):
    """random blocks, values and request PDUs"""

    def __init__(self, rng, unsigned=True):
        self.rng = rng
        self.unsigned = unsigned
        self.ctr = rng.randrange(1, 500)

    def val(self):
        self.ctr += 1
        v = (self.ctr * 7919) & 0xFFFF
        if not self.unsigned and v >= 0x8000:
            v -= 0x10000
        return v

    def bit(self):
        return self.rng.randrange(2)

    def blocks(self, kinds=(1, 2, 3, 4), maxsize=12, maxblocks=5, minblocks=1, base=(0, 5, 100, 65000)):
        rng = self.rng
        out = []
        nxt = {}
        for i in range(rng.randint(minblocks, maxblocks)):
            t = rng.choice(kinds)
            start = nxt.get(t, rng.choice(base)) + rng.choice([0, 0, 1, 3])
            size = rng.randint(1, maxsize)
            if start + size > 65536:
                continue
            out.append(["b%d" % i, t, start, size])
            nxt[t] = start + size
        if not out:
            out.append(["b0", kinds[0], 0, 4])
        rng.shuffle(out)
        return out

    def span(self, blocks, types, maxn, wild=0.1):
        """(address, count), mostly inside a block of one of the types"""
        rng = self.rng
        cand = [b for b in blocks if b[1] in types]
        if not cand or rng.random() < wild:
            a = rng.choice([0, 1, 99, 100, 65535, rng.randrange(65536)])
            return a, rng.randint(1, maxn)
        b = rng.choice(cand)
        n = rng.randint(1, min(maxn, b[3]))
        a = b[2] + rng.randint(0, b[3] - n)
        if rng.random() < wild:
            a = max(0, a + rng.choice([-1, 1, 2, b[3]]))
        return min(a, 65535), n

    def big_pdu(self, blocks, fcs):
        """a request for as many items as possible; a write writes one value throughout"""
        rng = self.rng
        fc = rng.choice(fcs)
        typ = {1: 1, 2: 2, 3: 3, 4: 4, 15: 1, 16: 3, 23: 3}[fc]
        lim = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123, 23: 121}[fc]
        b = rng.choice([b for b in blocks if b[1] == typ])
        n = min(lim, b[3])
        a = b[2] + rng.randint(0, b[3] - n)
        if fc <= 4:
            return p_read(fc, a, n)
        if fc == 15:
            return p_wcoils(a, [rng.randrange(2)] * n)
        if fc == 16:
            return p_wregs(a, [self.val()] * n)
        return p_rw(a, n, b[2] + rng.randint(0, b[3] - n), [self.val()] * n)

    def pdu(self, blocks, fcs=FCS, wild=0.1, maxn=16):
        rng = self.rng
        fc = rng.choice(fcs)
        if fc in (1, 2, 3, 4):
            a, n = self.span(blocks, (READ_TYPES[fc],), maxn, wild)
            return p_read(fc, a, n)
        if fc == 5:
            a, n = self.span(blocks, (COILS,), 1, wild)
            return p_w1(5, a, rng.choice([0, 0xFF00]))
        if fc == 6:
            a, n = self.span(blocks, (HOLDING,), 1, wild)
            return p_w1(6, a, self.val())
        if fc == 7:
            return b"\x07"
        if fc == 15:
            a, n = self.span(blocks, (COILS,), maxn, wild)
            return p_wcoils(a, [self.bit() for _ in range(n)])
        if fc == 16:
            a, n = self.span(blocks, (HOLDING,), maxn, wild)
            return p_wregs(a, [self.val() for _ in range(n)])
        if fc == 22:
            a, n = self.span(blocks, (HOLDING,), 1, wild)
            return p_mask(a, rng.choice([0, 0xFFFF, 0xFF00, 0x00FF, 0x0FF0, rng.randrange(65536)]),
                          rng.choice([0, 0xFFFF, 0x1234, rng.randrange(65536)]))
        if fc == 23:
            a, n = self.span(blocks, (HOLDING,), maxn, wild)
            a2, n2 = self.span(blocks, (HOLDING,), maxn, wild)
            return p_rw(a, n, a2, [self.val() for _ in range(n2)])
        raise AssertionError(fc)

    def limit_pdu(self, blocks):
        """a request with a quantity at the limit of its function, in a block which is large enough"""
        rng = self.rng
        fc = rng.choice((1, 2, 3, 4, 15, 16, 23, 23))
        typ = {1: 1, 2: 2, 4: 4, 15: 1}.get(fc, 3)
        lim = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123, 23: 125}[fc]
        n = lim + rng.choice([-1, 0, 0, 1, 1, 2])
        cand = [b for b in blocks if b[1] == typ and b[3] >= n]
        if not cand:
            return self.pdu(blocks, FCS, 0.1, 40)
        b = rng.choice(cand)
        a = b[2] + rng.randint(0, b[3] - n)
        if fc <= 4:
            return p_read(fc, a, n)
        if fc == 15:
            return p_wcoils(a, [self.bit() for _ in range(n)])
        if fc == 16:
            return p_wregs(a, [self.val() for _ in range(n)])
        wn = rng.choice([1, 2, 120, 121, 124])
        if rng.random() < 0.5:
            n = rng.randint(1, 3)
        return p_rw(b[2], n, b[2] + 1, [self.val() for _ in range(wn)])

    def malformed(self, pdu):
        """mutate a valid pdu"""
        rng = self.rng
        p = bytearray(pdu)
        if not p:
            return bytes(rng.randrange(256) for _ in range(rng.randint(0, 3)))
        kind = rng.randrange(9)
        if kind == 0:
            return bytes(p[:rng.randint(0, max(0, len(p) - 1))])
        if kind == 1:
            return bytes(p) + bytes(rng.randrange(256) for _ in range(rng.randint(1, 4)))
        if kind == 2 and len(p) > 1:
            i = rng.randrange(1, len(p))
            p[i] = rng.randrange(256)
            return bytes(p)
        if kind == 3:
            p[0] = rng.choice([0, 8, 9, 17, 20, 21, 24, 43, 99, 127, 128, 129, 143, 200, 255])
            return bytes(p)
        if kind == 4 and len(p) >= 5:
            p[3:5] = rng.choice([0, 1, 124, 125, 126, 1968, 1969, 2000, 2001, 65535]).to_bytes(2, "big")
            return bytes(p)
        if kind == 5 and len(p) > 5:
            i = 5 if p[0] in (15, 16) else min(9, len(p) - 1)
            p[i] = rng.choice([0, 1, p[i] ^ 1, 255, (p[i] + 2) & 255])
            return bytes(p)
        if kind == 6 and p[0] == 5:
            p[3:5] = rng.choice([b"\x00\x01", b"\xff\x01", b"\xff\xff", b"\x01\x00"])
            return bytes(p)
        if kind == 7:
            return bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
        if kind == 8 and len(p) > 6:
            return bytes(p[:rng.randint(6, len(p) - 1)])
        return bytes(p)


# ---------------------------------------------------------------------- product set-up
def setup_slave(w, owner, sid, blocks, unsigned=True):
    """add slave and blocks through the public API"""
    s = owner.add_slave(sid, unsigned=unsigned)
    for name, typ, start, size in blocks:
        s.add_block(name, typ, start, size)
    return s


def dump(slave, blocks):
    """state tuple of all blocks through the public API"""
    out = []
    for name, typ, start, size in blocks:
        out += list(slave.get_values(name, start, size))
    return tuple(out)


def silently(fn, *args):
    try:
        return fn(*args)
    except Exception:
        return None


def netcfg(rng, calm=0.3):
    """swarm network configuration"""
    if rng.random() < calm:
        return {"lat": 50 * US}
    return {
        "lat": rng.choice([10 * US, 200 * US, 2 * MS, 20 * MS]),
        "jitter": rng.choice([0, 100 * US, 5 * MS, 60 * MS]),
        "seg": rng.choice(["whole", "random", "random", "bytes"]),
        "seg_p": rng.choice([0.2, 0.5, 0.9]),
    }


def stalling(k):
    """from now on threads of the code under test may be stalled"""
    k.stalls_ok = True


def unstall(k):
    """no more stalls: returns when nobody is stalled any more"""
    k.stalls_ok = False
    while any(t.waiting == ("stall",) for t in k.tasks if not t.done):
        k.sleep(5 * MS)


def clockcfg(rng, p=0.2):
    """times (ms) at which the wall clock is set and by how much (s)"""
    if rng.random() >= p:
        return []
    return [[rng.choice([1, 20, 70, 300, 1500]) + rng.randrange(100), rng.choice([-3600, -1, -0.05, 0.3, 2, 3600, 1e7])]
            for _ in range(rng.randint(1, 6))]


def run_clock(k, jumps):
    def jump(d):
        k.wall_offset += int(d * SEC)
        k.fault("wall clock set " + ("back" if d < 0 else "forward"))

    for at, d in jumps:
        k.after(at * MS, jump, d)


# ---------------------------------------------------------------------- bounded calls
class Deadline(object):
    """fails the run when the guarded piece of code has not ended in time.  Time during which the
    simulator stalled tasks on purpose is added to the limit."""

    def __init__(self, k, what, limit, kind="unbounded call"):
        self.k = k
        self.what = what
        self.kind = kind
        self.limit = limit
        self.t0 = k.now
        self.stall0 = k.stall_total
        self.done = False
        self.item = k.at(k.now + limit, self._fire)

    def _fire(self):
        if self.done:
            return
        k = self.k
        extra = k.stall_total - self.stall0
        if k.now < self.t0 + self.limit + extra:
            self.item = k.at(self.t0 + self.limit + extra, self._fire)
            return
        k.fail(self.kind, "%s did not end within %.3f s: %s" % (
            self.what, (self.limit + extra) / 1e9, k.describe_blocked()))

    def end(self):
        self.done = True
        self.k.cancel(self.item)
        return self.k.now - self.t0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.end()


def errname(w, exc):
    """names of the class of exc and of its bases"""
    return [c.__name__ for c in type(exc).__mro__]


def call(fn, *args, **kw):
    """(value, None) or (None, exception)"""
    try:
        return fn(*args, **kw), None
    except Exception as exc:
        return None, exc


# ---------------------------------------------------------------------- scripted slaves
def rtu_req_len(buf):
    """length of the RTU request at the beginning of buf, or None if it is not known yet"""
    if len(buf) < 2:
        return None
    fc = buf[1]
    if 1 <= fc <= 6:
        return 8
    if fc in (7, 17):
        return 4
    if fc == 22:
        return 10
    if fc == 43:
        return 7
    at = {15: 6, 16: 6, 23: 10, 20: 2}.get(fc)
    if at is not None:
        return at + 3 + buf[at] if len(buf) > at else None
    return len(buf)


class Link(object):
    """one connection (or the serial line) of a scripted slave"""

    def __init__(self, stub, end):
        self.stub = stub
        self.k = stub.k
        self.end = end
        self.buf = bytearray()
        self.requests = []
        self.closed = False
        self.sent = bytearray()
        self.paused = False
        self.out = bytearray()
        self.closing = False
        if end is not None:
            end.on_rx = self._rx
            self._rx(end)

    def _rx(self, end):
        if self.out:
            self._flush()
        if self.paused:
            return
        if end.rx.buf:
            self.feed(end.take(len(end.rx.buf)))
        if (end.rx.eof or end.error is not None or end.reset) and not self.closed:
            self.closed = True
            self.stub.on_eof(self)

    def resume(self):
        self.paused = False
        if self.end is not None and not self.end.closed:
            self._rx(self.end)

    def feed(self, data):
        self.buf += data
        while True:
            frame = self._take()
            if frame is None:
                return
            self.requests.append(frame)
            self.stub.requests.append((self, frame, self.k.now))
            self.stub.respond(self, frame)

    def _take(self):
        b = self.buf
        if self.stub.framing == "tcp":
            if len(b) < 6:
                return None
            n = 6 + int.from_bytes(b[4:6], "big")
        else:
            n = (self.stub.req_len or rtu_req_len)(b)
            if n is None:
                return None
        if len(b) < n or n == 0:
            return None
        frame = bytes(b[:n])
        del b[:n]
        return frame

    def send(self, data, delay=0):
        if delay:
            self.stub.pending += 1
            self.k.after(delay, self._later, data)
        else:
            self._send(data)

    def _later(self, data):
        self.stub.pending -= 1
        self._send(data)

    def _send(self, data):
        data = bytes(data)
        if self.end is None:
            if data:
                self.stub.bus.transmit(self.stub.ep, data)
            self.sent += data
            return
        self.sent += data
        self.out += data
        self._flush()

    def _flush(self):
        e = self.end
        if e.closed or e.broken or e.error is not None or e.reset or e.wr_shut:
            self.out = bytearray()
        elif self.out:
            del self.out[:e.push(self.out)]
            if not self.out and self.closing:
                self.closing = False
                self.closed = True
                e.close()

    def close(self, rst=False, delay=0):
        if delay:
            self.stub.pending += 1
            self.k.after(delay, self._close_later, rst)
        elif self.end is not None:
            if self.out and not rst and not self.closed:
                self.closing = True        # after the rest has been sent
                return
            self.closed = True
            self.end.close(rst=rst)

    def _close_later(self, rst):
        self.stub.pending -= 1
        self.close(rst)


class Stub(object):
    """slave without tasks: `respond(link, frame)` is called for each whole request"""

    def __init__(self, k, respond, net=None, port=None, framing="tcp", bus=None, name="stub"):
        self.k = k
        self.net = net
        self.port = port
        self.framing = framing
        self.respond = respond
        self.links = []
        self.requests = []
        self.pending = 0
        self.listener = None
        self.on_connect = None
        self.req_len = None
        self.on_eof = lambda link: link.close()
        self.bus = bus
        self.last = -(1 << 60)
        if bus is not None:
            self.framing = "rtu"
            self.ep = bus.endpoint(name)
            self.line = Link(self, None)
            self.links.append(self.line)
            self.ep.on_byte = self._byte

    def _byte(self, b):
        if self.k.now - self.last > 8 * self.bus.char:
            self.line.buf = bytearray()
        self.last = self.k.now
        self.line.feed(bytes((b,)))

    def up(self):
        if self.listener is None:
            self.listener = self.net.listen_raw(self.port, self._accept)

    def down(self, reset=False):
        """stop listening and close all connections"""
        if self.listener is not None:
            self.net.unlisten(self.listener)
            self.listener = None
        for l in self.links:
            if l.end is not None and not l.end.closed:
                l.close(reset)

    def _accept(self, end):
        link = Link(self, end)
        self.links.append(link)
        if self.on_connect is not None:
            self.on_connect(link)

    def live(self):
        return [l for l in self.links if l.end is not None and not l.end.closed and not l.closed]
