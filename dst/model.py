"""Reference slave (trivial, sequential) and Modbus PDU/ADU helpers written from the specification."""
import struct

COILS, DISCRETE, HOLDING, INPUTS = 1, 2, 3, 4
READ_TYPES = {1: COILS, 2: DISCRETE, 3: HOLDING, 4: INPUTS}
FCS = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)


def crc16(data):
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            if crc & 1:
                crc = (crc >> 1) ^ 0xA001
            else:
                crc >>= 1
    return bytes((crc & 0xFF, crc >> 8))


_crc_cache = {}


def rtu_frame(addr, pdu):
    d = bytes((addr,)) + bytes(pdu)
    c = _crc_cache.get(d)
    if c is None:
        c = crc16(d)
        if len(_crc_cache) < 200000:
            _crc_cache[d] = c
    return d + c


def rtu_ok(frame):
    frame = bytes(frame)
    return len(frame) >= 4 and rtu_frame(frame[0], frame[1:-2]) == frame


def mbap(tid, unit, pdu, proto=0, length=None):
    return struct.pack(">HHHB", tid & 0xFFFF, proto, (len(pdu) + 1) if length is None else length, unit) + bytes(pdu)


def split_mbap(buf):
    """whole frames of a byte stream and the rest: [(tid, proto, length, unit, pdu)], rest"""
    out = []
    buf = bytes(buf)
    pos = 0
    while len(buf) - pos >= 7:
        tid, proto, length, unit = struct.unpack(">HHHB", buf[pos:pos + 7])
        if length < 1 or len(buf) - pos < 6 + length:
            break
        out.append((tid, proto, length, unit, buf[pos + 7:pos + 6 + length]))
        pos += 6 + length
    return out, buf[pos:]


# ---------------------------------------------------------------------- PDU builders
def p_read(fc, addr, n):
    return struct.pack(">BHH", fc, addr, n)


def p_w1(fc, addr, val):
    return struct.pack(">BHH", fc, addr, val & 0xFFFF)


def p_wcoils(addr, bits):
    return struct.pack(">BHHB", 15, addr, len(bits), (len(bits) + 7) // 8) + pack_bits(bits)


def p_wregs(addr, vals):
    return struct.pack(">BHHB", 16, addr, len(vals), 2 * len(vals)) + b"".join(
        struct.pack(">H", v & 0xFFFF) for v in vals)


def p_mask(addr, a, o):
    return struct.pack(">BHHH", 22, addr, a, o)


def p_rw(ra, rn, wa, vals):
    return struct.pack(">BHHHHB", 23, ra, rn, wa, len(vals), 2 * len(vals)) + b"".join(
        struct.pack(">H", v & 0xFFFF) for v in vals)


def pack_bits(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        if b:
            out[i // 8] |= 1 << (i % 8)
    return bytes(out)


def unpack_bits(data, n):
    return tuple((data[i // 8] >> (i % 8)) & 1 for i in range(n))


# ---------------------------------------------------------------------- layout + state
class Layout(object):
    """static description of a slave: blocks = [[name, type, start, size]]; the state is one flat tuple"""

    def __init__(self, blocks, unsigned=True, base=0):
        self.unsigned = unsigned
        self.blocks = []
        off = base
        for name, typ, start, size in blocks:
            self.blocks.append((name, typ, start, size, off))
            off += size
        self.size = off - base
        self.base = base
        self.by_name = {b[0]: b for b in self.blocks}

    def initial(self):
        return (0,) * self.size

    def find(self, typ, addr, n):
        for name, t, start, size, off in self.blocks:
            if t == typ and start <= addr and addr + n <= start + size:
                return off + addr - start
        return None

    def reg(self, v):
        """register as stored from 16 wire bits"""
        v &= 0xFFFF
        if not self.unsigned and v >= 0x8000:
            v -= 0x10000
        return v

    def enc(self, v):
        """16 wire bits of a stored register or None if it cannot be encoded"""
        if not isinstance(v, int):
            return None
        if self.unsigned:
            if 0 <= v <= 0xFFFF:
                return struct.pack(">H", v)
        elif -0x8000 <= v <= 0x7FFF:
            return struct.pack(">h", v)
        return None

    # ------------------------------------------------------------------ local API
    def get_values(self, state, name, addr, n):
        """values or error name"""
        b = self.by_name.get(name)
        if b is None:
            return "MissingKeyError"
        o = addr - b[2]
        if o < 0 or o + n > b[3]:
            return "OutOfModbusBlockError"
        return tuple(state[b[4] + o:b[4] + o + n])

    def set_values(self, state, name, addr, vals):
        """(error or None, new state)"""
        b = self.by_name.get(name)
        if b is None:
            return "MissingKeyError", state
        if isinstance(vals, (list, tuple)):
            vals = list(vals)
        else:
            vals = [vals]
        o = addr - b[2]
        if o < 0 or o + len(vals) > b[3]:
            return "OutOfModbusBlockError", state
        s = list(state)
        s[b[4] + o:b[4] + o + len(vals)] = vals
        return None, tuple(s)

    # ------------------------------------------------------------------ requests
    def request(self, state, pdu):
        """(kind, responses, codes, new_state)
        kind 'ok': any of `responses` with new_state; kind 'exc': exception with a code in `codes` and
        no change; kind 'bad': malformed: any exception, or (if `responses`) executed as well"""
        pdu = bytes(pdu)
        if not pdu:
            return "bad", (), None, state
        fc = pdu[0]
        if fc not in FCS:
            return "exc", (), (1,), state
        n = len(pdu)
        if fc == 7:
            if n != 1:
                return "bad", (b"\x07\x00",), None, state
            return "ok", (b"\x07\x00",), None, state
        need = {1: 5, 2: 5, 3: 5, 4: 5, 5: 5, 6: 5, 22: 7}.get(fc)
        if need is None:
            hdr = 10 if fc == 23 else 6
            if n < hdr:
                return "bad", (), None, state
            need = hdr + pdu[hdr - 1]
        if n < need:
            return "bad", (), None, state
        if n > need:
            kind, resp, codes, new = self.request(state, pdu[:need])
            if kind == "ok":
                # trailing bytes: refusing or executing the prefix are both accepted
                return "bad", resp + (((bytes((fc,)) + pdu[1:]),) if fc in (5, 6, 22) else ()), None, new
            return "bad", (), None, state
        codes = set()
        if fc in (1, 2, 3, 4):
            addr, qty = struct.unpack(">HH", pdu[1:5])
            if not 1 <= qty <= (2000 if fc < 3 else 125):
                codes.add(3)
            off = self.find(READ_TYPES[fc], addr, qty)
            if off is None:
                codes.add(2)
            if codes:
                return "exc", (), tuple(codes), state
            vals = state[off:off + qty]
            if fc < 3:
                body = pack_bits(vals)
            else:
                enc = [self.enc(v) for v in vals]
                if None in enc:
                    return "exc", (), (1, 2, 3, 4), state
                body = b"".join(enc)
            return "ok", (bytes((fc, len(body))) + body,), None, state
        if fc == 5:
            addr, val = struct.unpack(">HH", pdu[1:5])
            off = self.find(COILS, addr, 1)
            if off is None:
                codes.add(2)
            if val not in (0, 0xFF00):
                codes.add(3)
            if codes:
                return "exc", (), tuple(codes), state
            return "ok", (pdu,), None, put(state, off, (1 if val else 0,))
        if fc == 6:
            addr, val = struct.unpack(">HH", pdu[1:5])
            off = self.find(HOLDING, addr, 1)
            if off is None:
                return "exc", (), (2,), state
            return "ok", (pdu,), None, put(state, off, (self.reg(val),))
        if fc == 22:
            addr, a, o = struct.unpack(">HHH", pdu[1:7])
            off = self.find(HOLDING, addr, 1)
            if off is None:
                return "exc", (), (2,), state
            cur = state[off]
            new = ((cur & a) | (o & ~a)) & 0xFFFF
            return "ok", (pdu,), None, put(state, off, (self.reg(new),))
        if fc == 15:
            addr, qty, bc = struct.unpack(">HHB", pdu[1:6])
            if not 1 <= qty <= 1968 or bc != (qty + 7) // 8:
                codes.add(3)
            off = self.find(COILS, addr, qty)
            if off is None:
                codes.add(2)
            if codes:
                return "exc", (), tuple(codes), state
            return "ok", (pdu[:5],), None, put(state, off, unpack_bits(pdu[6:], qty))
        if fc == 16:
            addr, qty, bc = struct.unpack(">HHB", pdu[1:6])
            if not 1 <= qty <= 123 or bc != 2 * qty:
                codes.add(3)
            off = self.find(HOLDING, addr, qty)
            if off is None:
                codes.add(2)
            if codes:
                return "exc", (), tuple(codes), state
            vals = [self.reg(v) for v in struct.unpack(">%dH" % qty, pdu[6:])]
            return "ok", (pdu[:5],), None, put(state, off, vals)
        if fc == 23:
            ra, rn, wa, wn, bc = struct.unpack(">HHHHB", pdu[1:10])
            if not 1 <= rn <= 125 or not 1 <= wn <= 123 or bc != 2 * wn:
                codes.add(3)
            # 121 registers is the specified limit of the written part; up to 123 are accepted too
            ro = self.find(HOLDING, ra, rn)
            wo = self.find(HOLDING, wa, wn)
            if ro is None or wo is None:
                codes.add(2)
            if codes:
                return "exc", (), tuple(codes), state
            vals = [self.reg(v) for v in struct.unpack(">%dH" % wn, pdu[10:])]
            new = put(state, wo, vals)
            outs = []
            for st in (new, state):        # the order of read and write is left open
                enc = [self.enc(v) for v in st[ro:ro + rn]]
                if None not in enc:
                    body = b"".join(enc)
                    outs.append(bytes((23, len(body))) + body)
            if not outs:
                return "exc", (), (1, 2, 3, 4), state
            return "ok", tuple(outs), None, new
        raise AssertionError(fc)

    def accept(self, state, pdu, resp):
        """new states consistent with response `resp` (bytes) to `pdu`; [] if the response is wrong"""
        kind, resps, codes, new = self.request(state, pdu)
        resp = bytes(resp)
        fc = pdu[0] if pdu else None
        if kind == "ok":
            return [new] if resp in resps else []
        is_exc = len(resp) == 2 and (fc is None or resp[0] == (fc | 0x80)) and 1 <= resp[1] <= 0x0B
        if kind == "exc":
            return [state] if is_exc and resp[1] in codes else []
        if is_exc:
            return [state]
        return [new] if resp in resps else []

    def outcomes(self, state, pdu):
        """all possible new states when the answer was not seen"""
        kind, resps, codes, new = self.request(state, pdu)
        out = [state]
        if (kind == "ok" or resps) and new != state:
            out.append(new)
        return out


def put(state, off, vals):
    vals = tuple(vals)
    return state[:off] + vals + state[off + len(vals):]
