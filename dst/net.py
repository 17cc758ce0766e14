"""Simulated TCP: sockets, select, and harness-side raw endpoints."""
import errno
import socket as real_socket
import types

from .kernel import MS, SEC, US, HarnessError

MSG_PEEK = real_socket.MSG_PEEK
MSG_DONTWAIT = getattr(real_socket, "MSG_DONTWAIT", 0x40)
MSG_WAITALL = getattr(real_socket, "MSG_WAITALL", 0x100)


def oserr(no, cls=None):
    text = errno.errorcode.get(no, str(no))
    return OSError(no, text)


class Pipe(object):
    """one direction of a connection"""
    __slots__ = ("net", "conn", "dst", "buf", "inflight", "eof", "last", "cap", "total", "queued", "log",
                 "rx_log")

    def __init__(self, net, conn, cap):
        self.net = net
        self.conn = conn
        self.dst = None            # receiving End
        self.buf = bytearray()     # readable by the receiver
        self.inflight = 0
        self.eof = False           # FIN delivered
        self.last = 0              # time of the last scheduled delivery
        self.cap = cap
        self.total = 0
        self.log = bytearray()     # everything ever accepted from the sender
        self.rx_log = []           # (time, step, nbytes) deliveries

    def space(self):
        return max(0, self.cap - self.inflight - len(self.buf))


class End(object):
    """one end of an established connection"""

    def __init__(self, net, conn, name):
        self.net = net
        self.conn = conn
        self.name = name
        self.rx = None
        self.tx = None
        self.peer = None
        self.closed = False        # close() called
        self.wr_shut = False
        self.rd_shut = False
        self.error = None          # pending errno (RST)
        self.reset = False
        self.broken = False        # no further sending
        self.waiters = []
        self.on_rx = None          # callback for reactive (taskless) endpoints
        self.accepted = False

    def kick(self):
        k = self.net.k
        if self.waiters:
            ws, self.waiters = self.waiters, []
            for t in ws:
                k.wake(t)
        if self.on_rx is not None and not self.closed:
            self.on_rx(self)

    # --- state
    def readable(self):
        return bool(self.rx.buf) or self.rx.eof or self.error is not None or self.reset or self.rd_shut

    def writable(self):
        return self.error is not None or self.broken or self.wr_shut or self.tx.space() > 0

    # --- operations (non blocking)
    def push(self, data):
        """queue data for the peer; returns number of bytes accepted"""
        net = self.net
        n = min(len(data), self.tx.space())
        if n <= 0:
            return 0
        data = bytes(data[:n])
        self.tx.log += data
        self.tx.total += n
        if self.peer.closed:
            # nobody there: the peer's kernel answers with a reset
            net.send_rst(self.peer)
            return n
        net.transmit(self, data)
        return n

    def take(self, n, peek=False):
        data = bytes(self.rx.buf[:n])
        if not peek:
            del self.rx.buf[:n]
            if data:
                self.peer.kick()
        return data

    def shutdown_write(self):
        if self.wr_shut or self.broken or self.error is not None or self.reset:
            self.wr_shut = True
            return
        self.wr_shut = True
        self.net.transmit_fin(self)

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        self.net.open_ends -= 1
        self.conn.on_end_closed(self)
        if self.broken or self.reset:
            self.waiters_wake()
            return
        if rst or self.rx.buf:
            self.net.send_rst(self)
        else:
            self.shutdown_write()
        self.waiters_wake()

    def waiters_wake(self):
        ws, self.waiters = self.waiters, []
        for t in ws:
            self.net.k.wake(t)


class Conn(object):
    def __init__(self, net, cid, client, server_addr):
        self.net = net
        self.cid = cid
        self.server_addr = server_addr
        self.client_addr = ("127.0.0.1", 40000 + cid)
        cap = net.sndbuf()
        self.c = End(net, self, "c%d" % cid)
        self.s = End(net, self, "s%d" % cid)
        up, down = Pipe(net, self, cap), Pipe(net, self, max(net.sndbuf(), net.cap_down))
        self.c.tx, self.s.rx = up, up
        self.s.tx, self.c.rx = down, down
        up.dst, down.dst = self.s, self.c
        self.c.peer, self.s.peer = self.s, self.c
        self.dead = False          # black hole
        self.first_close = None
        self.tag = None
        self.excused = False       # an injected fault makes the server unable to serve it

    def on_end_closed(self, end):
        if self.first_close is None:
            self.first_close = end
            if end is self.s:
                # active close by the server side leaves TIME_WAIT on its port
                net = self.net
                net.time_wait.setdefault(self.server_addr[1], []).append(net.k.now + 60 * SEC)

    def kill(self):
        """both sides get a reset (middle box)"""
        for e in (self.c, self.s):
            self.net.deliver_rst(e)

    def blackhole(self):
        self.dead = True


class Listener(object):
    def __init__(self, net, addr, backlog):
        self.net = net
        self.addr = addr
        self.backlog = max(1, backlog)
        self.queue = []
        self.waiters = []
        self.handler = None        # taskless servers: handler(end)
        self.closed = False

    def kick(self):
        ws, self.waiters = self.waiters, []
        for t in ws:
            self.net.k.wake(t)


class Net(object):
    """cfg: lat (ns), jitter (ns), seg: 'whole'|'random'|'bytes', cap, dup..."""

    def __init__(self, k, cfg=None):
        self.k = k
        cfg = dict(cfg or {})
        self.cfg = cfg
        self.lat = cfg.get("lat", 100 * US)
        self.jitter = cfg.get("jitter", 0)
        self.seg = cfg.get("seg", "whole")
        self.seg_p = cfg.get("seg_p", 0.5)
        self.cap = cfg.get("cap", 65536)
        self.cap_down = cfg.get("cap_down", 0)       # at least this much towards the client
        self.listeners = {}
        self.conns = []
        self.on_dgram = None
        self.fds = {}
        self.time_wait = {}
        self.open_ends = 0
        self.part_until = 0        # partition: nothing is delivered before
        self.accept_faults = []    # errnos for the next accept calls
        self.connect_faults = []   # 'refuse'|'drop' for the next connects
        self.socket_faults = []    # errnos for the next socket() calls
        self.unreachable = set()   # ports whose SYNs are dropped
        self.on_conn = []          # callbacks(conn)
        self.send_faults = {}      # conn id -> ...
        self.short_writes = cfg.get("short_writes", 0.0)
        self.sockets = []          # every FakeSocket made by the package
        self.names = {"localhost": "127.0.0.1", "": "127.0.0.1", "0.0.0.0": "127.0.0.1"}
        self.select_hook = None
        self.fd_base = cfg.get("fd_base", 3)

    def sndbuf(self):
        return self.cap

    # ------------------------------------------------------------------ delivery
    def _delay(self):
        d = self.lat
        if self.jitter:
            d += (self.jitter * self.k.net(16, 0.3)) // 16
        return d

    def transmit(self, end, data):
        """segment and schedule"""
        k = self.k
        pipe = end.tx
        pos = 0
        n = len(data)
        pipe.inflight += n
        while pos < n:
            rest = n - pos
            if self.seg == "bytes":
                size = 1
            elif self.seg == "random" and rest > 1:
                # 0: all the rest
                c = k.net(rest, 1.0 - self.seg_p)
                size = rest if c == 0 else c
            else:
                size = rest
            part = data[pos:pos + size]
            pos += size
            when = max(pipe.last, k.now + self._delay())
            if size < rest:
                k.probe("segmented")
            pipe.last = when
            k.at(when, self._deliver, pipe, part)

    def _deliver(self, pipe, part):
        k = self.k
        if k.now < self.part_until:
            # held back in order until the partition heals
            when = self.part_until
            pipe.last = max(pipe.last, when)
            k.at(when, self._deliver, pipe, part)
            return
        pipe.inflight -= len(part)
        conn = pipe.conn
        dst = pipe.dst
        if conn.dead:
            return
        if dst.reset or dst.error is not None:
            return
        if dst.closed:
            self.send_rst(dst)
            return
        pipe.buf += part
        k.note("deliver %s %d" % (dst.name, len(part)))
        pipe.rx_log.append((k.now, len(part)))
        dst.kick()

    def transmit_fin(self, end):
        pipe = end.tx
        when = max(pipe.last, self.k.now + self._delay())
        pipe.last = when
        self.k.at(when, self._deliver_fin, pipe)

    def _deliver_fin(self, pipe):
        k = self.k
        if k.now < self.part_until:
            pipe.last = max(pipe.last, self.part_until)
            k.at(self.part_until, self._deliver_fin, pipe)
            return
        if pipe.conn.dead:
            return
        dst = pipe.dst
        if dst.reset or dst.error is not None or pipe.eof:
            return
        pipe.eof = True
        k.note("fin %s" % dst.name)
        if not dst.closed:
            dst.kick()

    def send_rst(self, end):
        """`end` sends a reset to its peer"""
        end.broken = True
        pipe = end.tx
        when = max(pipe.last, self.k.now + self._delay())
        pipe.last = when
        self.k.at(when, self._rst_arrives, end.peer)

    def _rst_arrives(self, end):
        k = self.k
        if k.now < self.part_until:
            k.at(self.part_until, self._rst_arrives, end)
            return
        if end.conn.dead:
            return
        self.deliver_rst(end)

    def deliver_rst(self, end):
        if end.closed or end.reset or end.error is not None:
            end.broken = True
            return
        end.error = errno.EPIPE if end.rx.eof else errno.ECONNRESET
        end.broken = True
        self.k.note("rst %s" % end.name)
        end.kick()
        end.peer.kick()

    # ------------------------------------------------------------------ connections
    def resolve(self, addr):
        host, port = addr[0], addr[1]
        return (self.names.get(host, host), port)

    def find_listener(self, addr):
        host, port = self.resolve(addr)
        return self.listeners.get(port)

    def new_conn(self, addr):
        conn = Conn(self, len(self.conns) + 1, None, self.resolve(addr))
        self.conns.append(conn)
        self.open_ends += 2
        return conn

    def connect_raw(self, addr, on_result):
        """start a handshake; on_result(conn or errno) is called later.  Returns a token that can be
        cancelled by setting token['cancelled']"""
        k = self.k
        tok = {"cancelled": False, "done": False}
        addr = self.resolve(addr)
        fault = self.connect_faults.pop(0) if self.connect_faults else None
        if fault == "drop":
            k.fault("SYN lost")
            retry = k.now + 1 * SEC       # first retransmission
            k.at(retry, self._syn, addr, on_result, tok)
        elif fault == "refuse":
            k.fault("connection refused")
            k.at(k.now + 2 * self._delay(), self._conn_result, tok, on_result, errno.ECONNREFUSED)
        else:
            k.at(k.now + self._delay(), self._syn, addr, on_result, tok)
        return tok

    def _conn_result(self, tok, on_result, res):
        if tok["cancelled"]:
            return
        tok["done"] = True
        on_result(res)

    def _syn(self, addr, on_result, tok):
        k = self.k
        if tok["cancelled"]:
            return
        if k.now < self.part_until or addr[1] in self.unreachable:
            k.fault("SYN lost")
            tok["wait"] = min(2 * tok.get("wait", SEC // 2), 64 * SEC)     # exponential back-off
            tok["total"] = tok.get("total", 0) + tok["wait"]
            if tok["total"] > 127 * SEC:
                self._conn_result(tok, on_result, errno.ETIMEDOUT)
            else:
                k.at(k.now + tok["wait"], self._syn, addr, on_result, tok)
            return
        lst = self.listeners.get(addr[1])
        if lst is None or lst.closed:
            k.at(k.now + self._delay(), self._conn_result, tok, on_result, errno.ECONNREFUSED)
            return
        if lst.handler is None and len(lst.queue) >= lst.backlog:
            k.at(k.now + 1 * SEC, self._syn, addr, on_result, tok)
            return
        conn = self.new_conn(addr)
        conn.tok = tok
        k.note("connected %d" % conn.cid)
        for fn in self.on_conn:
            fn(conn)
        if lst.handler is not None:
            conn.s.accepted = True
            lst.handler(conn.s)
        else:
            lst.queue.append(conn.s)
            lst.kick()
        k.at(k.now + self._delay(), self._established, tok, on_result, conn)

    def _established(self, tok, on_result, conn):
        if tok["cancelled"]:
            conn.c.close(rst=True)
            return
        tok["done"] = True
        on_result(conn)

    def listen_raw(self, port, handler):
        lst = Listener(self, ("127.0.0.1", port), 128)
        lst.handler = handler
        if port in self.listeners:
            raise HarnessError("port %d already listening" % port)
        self.listeners[port] = lst
        return lst

    def unlisten(self, lst):
        lst.closed = True
        if self.listeners.get(lst.addr[1]) is lst:
            del self.listeners[lst.addr[1]]
        for e in lst.queue:
            e.close(rst=True)
        lst.queue = []
        lst.kick()

    # accounting
    def open_sockets(self):
        return [s for s in self.sockets if not s._closed]


class FakeSocket(object):
    """the socket objects given to the package"""

    def __init__(self, net, family=real_socket.AF_INET, type_=real_socket.SOCK_STREAM, proto=0, fileno=None,
                 _end=None):
        self._net = net
        k = net.k
        if _end is None:
            k.point(31, k.sys_cost)
            if net.socket_faults:
                no = net.socket_faults.pop(0)
                if no:
                    k.fault("socket() failed")
                    raise oserr(no)
        self._timeout = None
        self._end = _end
        self._listener = None
        self._bound = None
        self._connecting = None
        self._conn_error = None
        self._closed = False
        self._reuse = False
        self._waiters = []
        self.family = family
        self.type = type_
        self.proto = proto
        self._opened_by = k.current.name if k.current else "-"
        fd = net.fd_base           # lower descriptors are in use by the rest of the process
        while fd in net.fds:
            fd += 1
        net.fds[fd] = self
        self._fd = fd
        net.sockets.append(self)

    # -- misc
    def fileno(self):
        return -1 if self._closed else self._fd

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __repr__(self):
        return "<FakeSocket fd=%s>" % self._fd

    def _chk(self):
        if self._closed:
            raise oserr(errno.EBADF)

    def _enter(self, loc):
        k = self._net.k
        if k.current is None:
            self._chk()
            return
        k.point(loc, k.sys_cost)
        self._chk()

    def setsockopt(self, level, opt, value=None, *a):
        self._enter(32)
        if level == real_socket.SOL_SOCKET and opt == real_socket.SO_REUSEADDR:
            self._reuse = bool(value)

    def getsockopt(self, level, opt, *a):
        self._enter(32)
        if level == real_socket.SOL_SOCKET and opt == real_socket.SO_ERROR:
            e = self._end.error if self._end is not None else self._conn_error
            return e or 0
        if level == real_socket.SOL_SOCKET and opt == real_socket.SO_REUSEADDR:
            return int(self._reuse)
        return 0

    def settimeout(self, t):
        self._enter(33)
        if t is not None:
            if t < 0:
                raise ValueError("Timeout value out of range")
            t = float(t)
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._enter(33)
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def getsockname(self):
        self._chk()
        if self._end is not None:
            c = self._end.conn
            return c.client_addr if self._end is c.c else c.server_addr
        return self._bound or ("0.0.0.0", 0)

    def getpeername(self):
        self._chk()
        if self._end is None:
            raise oserr(errno.ENOTCONN)
        if self._end.reset or self._end.error is not None:
            raise oserr(errno.ENOTCONN)
        c = self._end.conn
        return c.server_addr if self._end is c.c else c.client_addr

    def detach(self):
        raise HarnessError("socket.detach is not simulated")

    def dup(self):
        raise HarnessError("socket.dup is not simulated")

    def makefile(self, *a, **kw):
        raise HarnessError("socket.makefile is not simulated")

    # -- datagrams (only the log handler of the package uses them)
    def sendto(self, data, *args):
        """sendto(data, address): given to net.on_dgram, which may raise an OSError"""
        self._enter(45)
        if self.type != real_socket.SOCK_DGRAM:
            raise HarnessError("sendto on a stream socket is not simulated")
        addr = args[-1]
        data = bytes(data)
        if len(data) > 65507:
            raise oserr(errno.EMSGSIZE)
        if self._net.on_dgram is not None:
            self._net.on_dgram(data, addr)
        return len(data)

    # -- server side
    def bind(self, addr):
        self._enter(34)
        net = self._net
        host, port = addr[0], addr[1]
        if net.k.cfg.get("bind_fail"):
            pass
        if port in net.listeners:
            raise oserr(errno.EADDRINUSE)
        if not self._reuse:
            tw = [t for t in net.time_wait.get(port, []) if t > net.k.now]
            live = [c for c in net.conns if c.server_addr[1] == port and not c.s.closed]
            if tw or live:
                raise oserr(errno.EADDRINUSE)
        self._bound = (host or "0.0.0.0", port)

    def listen(self, backlog=128):
        self._enter(35)
        if self._bound is None:
            raise HarnessError("listen without bind is not simulated")
        if self._listener is None:
            port = self._bound[1]
            if port in self._net.listeners:
                raise oserr(errno.EADDRINUSE)
            self._listener = Listener(self._net, self._bound, backlog)
            self._net.listeners[port] = self._listener

    def accept(self):
        self._enter(36)
        net, k = self._net, self._net.k
        if self._listener is None:
            raise oserr(errno.EINVAL)
        deadline = self._deadline()
        while not self._listener.queue:
            self._wait(self._listener, deadline)
        if net.accept_faults:
            no = net.accept_faults.pop(0)
            if no:
                k.fault("accept failed: %s" % errno.errorcode.get(no, no))
                if no == errno.ECONNABORTED:
                    e = self._listener.queue.pop(0)
                    e.conn.excused = True
                    e.close(rst=True)
                raise oserr(no)
        e = self._listener.queue.pop(0)
        e.accepted = True
        sock = FakeSocket(net, _end=e)
        if sock._fd >= 1024:
            e.conn.excused = True      # the server cannot serve it
        return sock, e.conn.client_addr

    # -- client side
    def connect(self, addr):
        self._enter(37)
        net, k = self._net, self._net.k
        if self._end is not None:
            raise oserr(errno.EISCONN)
        if self._connecting is not None and not self._connecting["done"]:
            raise oserr(errno.EALREADY)
        self._conn_error = None

        def result(res):
            if isinstance(res, int):
                self._conn_error = res
            else:
                self._end = res.c
            ws, self._waiters = self._waiters, []
            for t in ws:
                k.wake(t)

        self._connecting = tok = net.connect_raw(addr, result)
        if self._timeout == 0.0:
            raise oserr(errno.EINPROGRESS)
        deadline = self._deadline()
        while not tok["done"]:
            self._wait(self, deadline)
        if self._conn_error:
            err, self._conn_error = self._conn_error, None
            raise oserr(err)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as exc:
            if exc.errno is None:
                return errno.EAGAIN
            return exc.errno
        return 0

    # -- blocking helper
    def _deadline(self):
        if self._timeout is None:
            return None
        if self._timeout == 0.0:
            return -1
        return self._net.k.now + int(self._timeout * SEC)

    def _wait(self, obj, deadline):
        """wait for a change of obj or raise"""
        k = self._net.k
        if deadline == -1:
            raise oserr(errno.EAGAIN)
        cur = k.current
        if cur is None:
            raise oserr(errno.EAGAIN)
        if deadline is not None and k.now >= deadline:
            raise TimeoutError("timed out")
        k.prepare_block()
        lst = obj._waiters if obj is self else obj.waiters
        lst.append(cur)
        k.block(deadline, ("sock", self))
        lst = obj._waiters if obj is self else obj.waiters
        if cur in lst:
            lst.remove(cur)
        self._chk()

    def _need_end(self):
        if self._end is None:
            if self._connecting is not None and not self._connecting["done"]:
                raise oserr(errno.EAGAIN)
            raise oserr(errno.ENOTCONN)
        return self._end

    # -- data
    def recv(self, n, flags=0):
        self._enter(38)
        net = self._net
        if n < 0:
            raise ValueError("negative buffersize in recv")
        deadline = -1 if flags & MSG_DONTWAIT else self._deadline()
        if self._end is None and self._connecting is not None and not self._connecting["done"]:
            while self._end is None and not self._connecting["done"]:
                self._wait(self, deadline)
        if self._end is None:
            raise oserr(errno.ENOTCONN)
        e = self._end
        if n == 0:
            return b""
        while True:
            if e.rx.buf:
                if flags & MSG_WAITALL and len(e.rx.buf) < n and not e.rx.eof:
                    pass
                else:
                    return e.take(n, bool(flags & MSG_PEEK))
            if e.error is not None:
                err = e.error
                e.error = None
                e.reset = True
                if err == errno.EPIPE:
                    # a reset after an orderly end of stream
                    return b""
                raise oserr(err)
            if e.rx.eof or e.reset or e.rd_shut:
                return b""
            self._wait(e, deadline)

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), self.getpeername()

    def send(self, data, flags=0):
        self._enter(39)
        data = bytes(data)
        return self._send1(data, self._deadline())

    def _send1(self, data, deadline):
        k = self._net.k
        if self._end is None and self._connecting is not None and not self._connecting["done"]:
            while self._end is None and not self._connecting["done"]:
                self._wait(self, deadline)
        if self._end is None:
            raise oserr(errno.EPIPE)
        e = self._end
        if not data:
            return 0
        while True:
            if e.error is not None:
                err = e.error
                e.error = None
                e.reset = True
                raise oserr(err)
            if e.broken or e.wr_shut:
                raise oserr(errno.EPIPE)
            room = e.tx.space()
            if room > 0:
                m = min(room, len(data))
                if self._net.short_writes and m > 1:
                    c = k.net(m, 1.0 - self._net.short_writes)
                    if c:
                        m = c
                if m < len(data):
                    k.fault("short write")
                e.push(data[:m])
                return m
            self._wait(e, deadline)

    def sendall(self, data, flags=0):
        self._enter(40)
        data = bytes(data)
        deadline = self._deadline()
        while data:
            n = self._send1(data, deadline)
            data = data[n:]

    def shutdown(self, how):
        self._enter(41)
        if self._end is None:
            raise oserr(errno.ENOTCONN)
        e = self._end
        if e.reset:
            raise oserr(errno.ENOTCONN)
        if how in (real_socket.SHUT_WR, real_socket.SHUT_RDWR):
            e.shutdown_write()
        if how in (real_socket.SHUT_RD, real_socket.SHUT_RDWR):
            e.rd_shut = True
            e.kick()

    def close(self):
        if self._closed:
            return
        net = self._net
        k = net.k
        if k.current is not None and not k.aborting:
            k.point(42, k.sys_cost)
        self._closed = True
        net.fds.pop(self._fd, None)
        if k.aborting or not k.alive:
            return
        k.note("close fd")
        if self._listener is not None:
            net.unlisten(self._listener)
        if self._connecting is not None and not self._connecting["done"]:
            self._connecting["cancelled"] = True
        if self._end is not None:
            self._end.close()
        ws, self._waiters = self._waiters, []
        for t in ws:
            k.wake(t)

    def __del__(self):
        if not self._closed and self._net.k.alive and not self._net.k.aborting:
            # garbage collected without close: the descriptor goes away too
            try:
                self._closed = True
                self._net.fds.pop(self._fd, None)
                if self._listener is not None:
                    self._net.unlisten(self._listener)
                if self._end is not None:
                    self._end.close()
            except Exception:
                pass

    # -- select support
    def _readable(self):
        if self._listener is not None:
            return bool(self._listener.queue)
        if self._end is not None:
            return self._end.readable()
        if self._connecting is not None and not self._connecting["done"]:
            return False
        if self._bound is not None and self._listener is None:
            return True
        return True          # unconnected stream socket: POLLHUP

    def _writable(self):
        if self._listener is not None:
            return False
        if self._end is not None:
            return self._end.writable()
        if self._connecting is not None and not self._connecting["done"]:
            return False
        return True

    def _wait_objs(self):
        if self._listener is not None:
            return self._listener.waiters
        if self._end is not None:
            return self._end.waiters
        return self._waiters


class ConsolePipe(object):
    """simulated sys.stdin / sys.stdout of the console"""

    def __init__(self, net):
        self.net = net
        self.k = net.k
        self.lines = []
        self.waiters = []
        self.eof = False
        self.out = []
        fd = 1000
        while fd in net.fds:
            fd += 1
        self._fd = fd
        net.fds[fd] = self
        self._closed = False
        self.on_write = None

    def fileno(self):
        return self._fd

    def type_line(self, text):
        self.lines.append(text)
        ws, self.waiters = self.waiters, []
        for t in ws:
            self.k.wake(t)

    def _readable(self):
        return bool(self.lines) or self.eof

    def _writable(self):
        return True

    def _wait_objs(self):
        return self.waiters

    def readline(self, *a):
        k = self.k
        k.point(51, k.sys_cost)
        while not self.lines:
            if self.eof:
                return ""
            k.prepare_block()
            self.waiters.append(k.current)
            k.block(None, ("stdin",))
        return self.lines.pop(0)

    def write(self, text):
        if self.k.current is not None:
            self.k.point(52)
        self.out.append((self.k.now, self.k.step, text))
        if self.on_write:
            self.on_write(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return True


def do_select(net, r, w, x, timeout=None):
    k = net.k
    k.point(61, k.sys_cost)
    if timeout is not None and timeout < 0:
        raise ValueError("timeout must be non-negative")

    def resolve(lst):
        out = []
        for obj in lst:
            fd = obj if isinstance(obj, int) else obj.fileno()
            if fd < 0:
                raise ValueError("file descriptor cannot be a negative integer (%d)" % fd)
            if fd >= 1024:
                k.fault("descriptor above FD_SETSIZE")
                raise ValueError("filedescriptor out of range in select()")
            s = net.fds.get(fd)
            if s is None:
                raise oserr(errno.EBADF)
            out.append((obj, s))
        return out

    if net.select_hook is not None:
        net.select_hook()
    rs, ws, xs = resolve(list(r)), resolve(list(w)), resolve(list(x))
    deadline = None if timeout is None else k.now + int(timeout * SEC)
    while True:
        ro = [o for o, s in rs if s._readable()]
        wo = [o for o, s in ws if s._writable()]
        if ro or wo:
            return ro, wo, []
        if timeout == 0 or (deadline is not None and k.now >= deadline):
            return [], [], []
        cur = k.current
        k.prepare_block()
        objs = []
        for _, s in rs + ws:
            lst = s._wait_objs()
            if cur not in lst:
                lst.append(cur)
        k.block(deadline, ("select",))
        for _, s in rs + ws:
            lst = s._wait_objs()
            if cur in lst:
                lst.remove(cur)


def make_select_module(net):
    m = types.ModuleType("select")
    class Select(object):
        """as a builtin function: not bound to an instance when it is a class attribute"""
        __name__ = "select"

        def __call__(self, r, w, x, timeout=None):
            return do_select(net, r, w, x, timeout)

    m.select = Select()
    m.error = OSError
    return m


def make_socket_module(net):
    m = types.ModuleType("socket")

    class socket(FakeSocket):
        def __init__(self, family=real_socket.AF_INET, type=real_socket.SOCK_STREAM, proto=0, fileno=None):
            if family == -1:
                family = real_socket.AF_INET
            if type == -1:
                type = real_socket.SOCK_STREAM
            FakeSocket.__init__(self, net, family, type, proto)

    m.socket = m.SocketType = socket
    m.error = OSError
    m.timeout = TimeoutError
    m.gaierror = real_socket.gaierror
    m.herror = real_socket.herror
    m.has_ipv6 = False

    def create_connection(address, timeout=None, source_address=None, **kw):
        s = socket()
        try:
            if timeout is not None:
                s.settimeout(timeout)
            s.connect(address)
        except BaseException:
            s.close()
            raise
        return s

    m.create_connection = create_connection

    def create_server(address, *, family=real_socket.AF_INET, backlog=None, reuse_port=False, **kw):
        s = socket()
        s.setsockopt(real_socket.SOL_SOCKET, real_socket.SO_REUSEADDR, 1)
        s.bind(address)
        s.listen(backlog or 128)
        return s

    m.create_server = create_server
    m.getfqdn = lambda name="": name or "localhost"
    m.gethostname = lambda: "localhost"
    m.gethostbyname = lambda name: net.names.get(name, name)
    m.getaddrinfo = lambda host, port, *a, **kw: [
        (real_socket.AF_INET, real_socket.SOCK_STREAM, 6, "", (net.names.get(host, host), int(port)))]
    m.getdefaulttimeout = lambda: None
    m.setdefaulttimeout = lambda t: None
    for name in ("htons", "htonl", "ntohs", "ntohl", "inet_aton", "inet_ntoa", "inet_pton", "inet_ntop"):
        setattr(m, name, getattr(real_socket, name))
    for name in dir(real_socket):
        if name.isupper() and not hasattr(m, name):
            setattr(m, name, getattr(real_socket, name))
    return m


class RawClient(object):
    """harness-side TCP client used from a task; not made of package code"""

    def __init__(self, net, addr):
        self.net = net
        self.k = net.k
        self.addr = addr
        self.end = None
        self.err = None
        self.rx = bytearray()     # everything received
        self.t_rx = []
        self.eof = False
        self.rst = False
        self._waiter = None
        self.auto = True          # drain the receive buffer at once

    def connect(self, timeout=5 * SEC):
        k = self.k
        res = []
        cur = k.current

        def result(r):
            res.append(r)
            k.wake(cur)

        tok = self.net.connect_raw(self.addr, result)
        end = k.now + timeout
        while not res:
            k.prepare_block()
            k.block(end, ("raw connect",))
            if not res and k.now >= end:
                tok["cancelled"] = True
                self.err = errno.ETIMEDOUT
                return False
        if isinstance(res[0], int):
            self.err = res[0]
            return False
        self.attach(res[0].c)
        return True

    def attach(self, end):
        self.end = end
        end.on_rx = self._on_rx
        self._on_rx(end)

    def _on_rx(self, end):
        if self.auto and end.rx.buf:
            d = end.take(len(end.rx.buf))
            self.rx += d
            self.t_rx.append((self.k.now, len(d)))
        if end.rx.eof and not end.rx.buf:
            self.eof = True
        if end.error is not None or end.reset:
            self.rst = True
        if self._waiter is not None:
            w, self._waiter = self._waiter, None
            self.k.wake(w)

    def read_some(self, n):
        """manual mode"""
        d = self.end.take(n)
        self.rx += d
        return d

    def send(self, data):
        """send everything, waiting for room; False if the connection is gone"""
        k = self.k
        data = bytes(data)
        k.point(71, 0)
        while data:
            e = self.end
            if e.closed or e.broken or e.error is not None or e.reset:
                return False
            n = e.push(data)
            data = data[n:]
            if data:
                k.sleep(1 * MS)
        return True

    def wait(self, cond, timeout):
        k = self.k
        end = k.now + timeout
        while not cond():
            if k.now >= end:
                return False
            k.prepare_block()
            self._waiter = k.current
            k.block(end, ("raw wait",))
            self._waiter = None
        return True

    def close(self):
        if self.end is not None:
            self.end.close()

    def abort(self):
        if self.end is not None:
            self.end.close(rst=True)

    def half_close(self):
        if self.end is not None:
            self.end.shutdown_write()
