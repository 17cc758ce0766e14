"""Simulated serial lines and a pyserial-like port object."""
import types

from .kernel import MS, SEC, US


class SerialException(IOError):
    pass


class SerialTimeoutException(SerialException):
    pass


class PortNotOpenError(SerialException):
    def __init__(self):
        SerialException.__init__(self, "Attempting to use a port that is not open")


class TermiosError(Exception):
    """stands for termios.error, which is no OSError"""


class Bus(object):
    """half-duplex multi-drop line.  Every byte sent by one endpoint reaches all the others."""

    def __init__(self, k, baud=9600, bits=11):
        self.k = k
        self.baud = baud
        self.char = int(bits * SEC / baud)
        self.eps = []
        self.tx_free = 0           # end of the transmission in progress
        self.tx_src = None
        self.mangle = None         # fn(src, data) -> list of (extra_gap_ns, byte) or None
        self.log = []              # (t_start, t_end, src name, bytes) as sent
        self.last_byte = -(1 << 60)  # time the last byte was on the line
        self.collisions = 0
        self.garble = True
        self.dead = False          # cable cut
        self.on_byte = []

    def endpoint(self, name):
        ep = Endpoint(self, name)
        self.eps.append(ep)
        return ep

    def transmit(self, src, data, gaps=None):
        """returns the end of the transmission"""
        k = self.k
        start = max(k.now, src.tx_free)
        collide = False
        if self.tx_free > start and self.tx_src is not src:
            collide = True
            self.collisions += 1
            k.fault("line collision")
        seq = None
        if self.mangle is not None:
            seq = self.mangle(src, bytes(data))
        if seq is None:
            seq = [(0, b) for b in data]
        t = start
        for i, (gap, b) in enumerate(seq):
            if gaps and i in gaps:
                gap += gaps[i]
            t += gap + self.char
            if collide and self.garble:
                b = (b ^ 0x5A) & 0xFF
            k.at(t, self._byte, src, b)
        end = max(t, start + len(data) * self.char)
        src.tx_free = end
        if end > self.tx_free:
            self.tx_free = end
            self.tx_src = src
        self.log.append((start, end, src.name, bytes(data)))
        k.note("tx %s %s" % (src.name, bytes(data).hex()))
        return end

    def noise(self, data):
        """bytes that appear on the line from nowhere"""
        k = self.k
        t = k.now
        for b in data:
            t += self.char
            k.at(t, self._byte, None, b)
        self.k.fault("noise burst")
        return t

    def _byte(self, src, b):
        self.last_byte = self.k.now
        if self.dead:
            return
        for ep in self.eps:
            if ep is not src or ep.echo:
                ep.receive(b)


class Endpoint(object):
    def __init__(self, bus, name):
        self.bus = bus
        self.k = bus.k
        self.name = name
        self.echo = False
        self.tx_free = 0
        self.buf = bytearray()
        self.waiters = []
        self.on_byte = None        # taskless device
        self.is_port = False
        self.listening = True      # False: bytes are lost (port closed)
        self.latency = 0           # adapter delivers in chunks at this period
        self.pending = bytearray()
        self.flush_at = None
        self.cap = 4096
        self.plugged = True
        self.err_pending = None
        self.ports = []

    def receive(self, b):
        if self.on_byte is not None:
            self.on_byte(b)
            return
        if not self.listening or not self.plugged:
            return
        if self.latency:
            self.pending.append(b)
            if self.flush_at is None:
                self.flush_at = self.k.after(self.latency, self._flush)
            return
        if len(self.buf) < self.cap:
            self.buf.append(b)
            self.kick()

    def _flush(self):
        self.flush_at = None
        if self.pending and self.listening:
            self.buf += self.pending
            self.kick()
        self.pending = bytearray()

    def kick(self):
        ws, self.waiters = self.waiters, []
        for t in ws:
            self.k.wake(t)

    def unplug(self):
        self.plugged = False
        for p in self.ports:
            if p.is_open:
                p.lost_session = True    # the descriptor stays useless also when the device comes back
        self.buf = bytearray()
        self.pending = bytearray()
        self.k.fault("device unplugged")
        self.kick()

    def plug(self):
        self.plugged = True


class FakeSerial(object):
    """pyserial Serial over an Endpoint.  mode 'posix': total read timeout (as serialposix);
    mode 'gap': the inter byte timeout ends a read too (as serialwin32)."""

    def __init__(self, ep, baudrate=None, timeout=None, mode="posix", opened=True, name="/dev/ttyS0"):
        self._ep = ep
        self._k = ep.k
        ep.is_port = True
        ep.ports.append(self)
        self.name = self.port = self.portstr = name
        self._baudrate = baudrate or ep.bus.baud
        self._timeout = timeout
        self._ibt = None
        self.mode = mode
        self.is_open = False
        self._closing = False
        self.cancel_slow = 0
        self.cancels = 0
        self.write_timeout = None
        self.bytesize, self.parity, self.stopbits = 8, "N", 1
        self.xonxoff = self.rtscts = self.dsrdtr = False
        self.storm = {}            # op -> duration of the failing call (ns)
        self.faults = {}           # op -> list of 0/1 consumed one per call
        self.opens = 0
        self.written = []          # (t, bytes)
        self.lost_session = False  # device lost since this open
        self.reads = 0
        ep.listening = False
        if opened:
            self.is_open = True
            ep.listening = True

    # ------------------------------------------------------------------
    def _enter(self, loc, op):
        k = self._k
        if k.current is not None:
            k.point(loc, k.sys_cost)
        if op in self.storm and k.current is not None:
            # every call fails, after some time, until the storm is over
            k.fault("serial %s storm" % op)
            k.sleep(self.storm[op])
            raise SerialException("%s failed: injected I/O error" % op)
        lst = self.faults.get(op)
        if lst:
            f = lst.pop(0)
            if f:
                k.fault("serial %s error" % op)
                if op == "flush_in":
                    raise TermiosError(5, "Input/output error")
                raise SerialException("%s failed: injected I/O error" % op)

    def _chk(self):
        if not self.is_open:
            raise PortNotOpenError()

    def open(self):
        self._enter(81, "open")
        if self.is_open:
            raise SerialException("Port is already open.")
        self._closing = False
        if not self._ep.plugged:
            self._k.fault("open of missing device")
            raise SerialException("could not open port: no such device")
        self.is_open = True
        self.cancels = 0
        self.opens += 1
        self._ep.buf = bytearray()
        self._ep.pending = bytearray()
        self._ep.listening = True
        self._ep.err_pending = None
        self.lost_session = False

    def close(self):
        if not self.is_open:
            return
        k = self._k
        self._ep.listening = False
        self._ep.buf = bytearray()
        if k.aborting or k.current is None:
            self.is_open = False
            return
        # as in serialposix, the descriptors and pipes are closed before is_open changes
        self._closing = True
        k.point(80, k.sys_cost)
        self._closing = False
        self.is_open = False
        k.note("serial close %s" % self._ep.name)
        self._ep.kick()
        self._enter(82, "close")

    def isOpen(self):
        return self.is_open

    def __enter__(self):
        if not self.is_open:
            self.open()
        return self

    def __exit__(self, *a):
        self.close()

    @property
    def timeout(self):
        return self._timeout

    @timeout.setter
    def timeout(self, value):
        if value is not None and value < 0:
            raise ValueError("Not a valid timeout: {!r}".format(value))
        self._timeout = value
        self._reconf()

    @property
    def inter_byte_timeout(self):
        return self._ibt

    @inter_byte_timeout.setter
    def inter_byte_timeout(self, value):
        if value is not None and value < 0:
            raise ValueError("Not a valid timeout: {!r}".format(value))
        self._ibt = value
        self._reconf()

    interCharTimeout = inter_byte_timeout

    @property
    def baudrate(self):
        return self._baudrate

    @baudrate.setter
    def baudrate(self, value):
        self._baudrate = value
        self._reconf()

    def _reconf(self):
        if self.is_open and self._k.current is not None:
            self._enter(83, "reconf")
            if not self._ep.plugged or self.lost_session:
                raise SerialException("Could not configure port: (5, 'Input/output error')")

    @property
    def in_waiting(self):
        self._enter(84, "in_waiting")
        if not self.is_open:
            raise PortNotOpenError()
        if not self._ep.plugged or self.lost_session:
            raise OSError(5, "Input/output error")
        return len(self._ep.buf)

    def inWaiting(self):
        return self.in_waiting

    def reset_input_buffer(self):
        self._enter(85, "flush_in")
        self._chk()
        if not self._ep.plugged or self.lost_session:
            raise TermiosError(5, "Input/output error")
        self._ep.buf = bytearray()
        self._ep.pending = bytearray()

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        self._enter(86, "flush_out")
        self._chk()
        if not self._ep.plugged or self.lost_session:
            raise TermiosError(5, "Input/output error")

    flushOutput = reset_output_buffer

    def flush(self):
        self._enter(87, "flush")
        self._chk()
        if not self._ep.plugged or self.lost_session:
            raise TermiosError(5, "Input/output error")
        k = self._k
        while self._ep.tx_free > k.now:
            k.prepare_block()
            k.block(self._ep.tx_free, ("drain",))

    def write(self, data):
        self._enter(88, "write")
        self._chk()
        data = bytes(data)
        if not self._ep.plugged or self.lost_session:
            raise SerialException("write failed: [Errno 5] Input/output error")
        if data:
            self._ep.bus.transmit(self._ep, data)
            self.written.append((self._k.now, data))
        return len(data)

    def cancel_read(self):
        self._enter(89, "cancel")
        if self.is_open:
            if self._closing:
                raise TypeError("'NoneType' object cannot be interpreted as an integer")
            self.cancels += 1
            self._ep.kick()
            if self.cancel_slow:
                # the reader wakes up long before the caller goes on
                self._k.fault("slow cancel of a read")
                self._k.sleep(self.cancel_slow)

    def cancel_write(self):
        pass

    def read(self, size=1):
        self._enter(90, "read")
        self._chk()
        k, ep = self._k, self._ep
        self.reads += 1
        out = bytearray()
        t = self._timeout
        end = None if t is None else k.now + int(t * SEC)
        while len(out) < size:
            if not self.is_open or self._closing:
                raise SerialException("read failed: port closed during read")
            if self.cancels:
                self.cancels = 0
                break
            if not ep.plugged or self.lost_session:
                raise SerialException("device reports readiness to read but returned no data "
                                      "(device disconnected or multiple access on port?)")
            if ep.err_pending:
                ep.err_pending = None
                k.fault("serial read error")
                raise SerialException("read failed: injected I/O error")
            if ep.buf:
                n = size - len(out)
                out += ep.buf[:n]
                del ep.buf[:n]
                if end is not None and k.now >= end:
                    break
                continue
            lim = end
            if self.mode == "gap" and out and self._ibt:
                g = k.now + int(self._ibt * SEC)
                lim = g if lim is None else min(lim, g)
            if lim is not None and k.now >= lim:
                break
            k.prepare_block()
            ep.waiters.append(k.current)
            val = k.block(lim, ("serial read",))
            if k.current in ep.waiters:
                ep.waiters.remove(k.current)
            if val is None and not ep.buf and not self.cancels:
                break
        return bytes(out)

    def read_all(self):
        return self.read(self.in_waiting)

    def readall(self):
        return self.read_all()


class SerialWorld(object):
    def __init__(self, k):
        self.k = k
        self.ports = {}
        m = types.ModuleType("serial")
        m.SerialException = SerialException
        m.SerialTimeoutException = SerialTimeoutException
        m.PortNotOpenError = PortNotOpenError
        m.PARITY_NONE, m.PARITY_EVEN, m.PARITY_ODD = "N", "E", "O"
        m.STOPBITS_ONE, m.STOPBITS_TWO = 1, 2
        m.EIGHTBITS, m.SEVENBITS = 8, 7
        world = self

        def Serial(port=None, baudrate=9600, **kw):
            ep = world.ports.get(port)
            if ep is None:
                bus = Bus(world.k, baudrate)
                ep = bus.endpoint("port%s" % port)
                world.ports[port] = ep
            return FakeSerial(ep, baudrate, kw.get("timeout"), name=str(port))

        m.Serial = Serial
        su = types.ModuleType("serial.serialutil")
        su.SerialException = SerialException
        su.SerialTimeoutException = SerialTimeoutException
        su.PortNotOpenError = PortNotOpenError
        m.serialutil = su
        self.module = m
