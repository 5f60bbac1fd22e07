"""Independent implementation of the node side of the wire format.

Nothing in here uses the code under test: msgpack, the typed-object encoding,
integers and addresses are written from the node's (Go) definition.
"""
import struct


class WireError(Exception):
    """Bytes from the executor which the node could not decode."""


class Addr(object):
    """21-byte address as the node sees it."""
    __slots__ = ('raw',)

    def __init__(self, raw):
        if isinstance(raw, str):
            p = {'hx': b'\x00', 'cx': b'\x01'}[raw[:2]]
            raw = p + bytes.fromhex(raw[2:])
        assert isinstance(raw, bytes) and len(raw) == 21 and raw[0] in (0, 1), raw
        self.raw = raw

    @property
    def is_contract(self):
        return self.raw[0] == 1

    def __eq__(self, o):
        return isinstance(o, Addr) and o.raw == self.raw

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Addr', self.raw))

    def __str__(self):
        return ('cx' if self.raw[0] else 'hx') + self.raw[1:].hex()

    def __repr__(self):
        return "Addr('%s')" % self


# ---------------------------------------------------------------- integers
def int_bytes(v):
    """Shortest big-endian two's complement, at least one byte."""
    n = max(1, abs(v).bit_length() // 8)
    while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
        n += 1
    return (v + (1 << (8 * n)) if v < 0 else v).to_bytes(n, 'big')


def int_from(b):
    v = int(bytes(b).hex() or '0', 16)
    if b and b[0] & 0x80:
        v -= 1 << (8 * len(b))
    return v


def int_from_strict(b):
    if not isinstance(b, bytes):
        raise WireError('integer is not bytes: %r' % (b,))
    if len(b) == 0:
        raise WireError('empty integer')
    v = int_from(b)
    if int_bytes(v) != b:
        raise WireError('integer not in shortest form: %s' % b.hex())
    return v


# ----------------------------------------------------------------- msgpack
def pack(o):
    out = bytearray()
    _pack(o, out)
    return bytes(out)


def _pack(o, out):
    if o is None:
        out.append(0xc0)
    elif o is True:
        out.append(0xc3)
    elif o is False:
        out.append(0xc2)
    elif isinstance(o, int):
        if 0 <= o < 128:
            out.append(o)
        elif -32 <= o < 0:
            out.append(256 + o)
        elif 0 <= o < 256:
            out += b'\xcc' + bytes([o])
        elif 0 <= o < 1 << 16:
            out += b'\xcd' + struct.pack('>H', o)
        elif 0 <= o < 1 << 32:
            out += b'\xce' + struct.pack('>I', o)
        elif 0 <= o < 1 << 64:
            out += b'\xcf' + struct.pack('>Q', o)
        elif -128 <= o < 0:
            out += b'\xd0' + struct.pack('>b', o)
        elif -(1 << 15) <= o < 0:
            out += b'\xd1' + struct.pack('>h', o)
        elif -(1 << 31) <= o < 0:
            out += b'\xd2' + struct.pack('>i', o)
        else:
            out += b'\xd3' + struct.pack('>q', o)
    elif isinstance(o, bytes):
        n = len(o)
        if n < 256:
            out += b'\xc4' + bytes([n])
        elif n < 1 << 16:
            out += b'\xc5' + struct.pack('>H', n)
        else:
            out += b'\xc6' + struct.pack('>I', n)
        out += o
    elif isinstance(o, str):
        b = o.encode('utf-8')
        n = len(b)
        if n < 32:
            out.append(0xa0 | n)
        elif n < 256:
            out += b'\xd9' + bytes([n])
        elif n < 1 << 16:
            out += b'\xda' + struct.pack('>H', n)
        else:
            out += b'\xdb' + struct.pack('>I', n)
        out += b
    elif isinstance(o, (list, tuple)):
        n = len(o)
        if n < 16:
            out.append(0x90 | n)
        elif n < 1 << 16:
            out += b'\xdc' + struct.pack('>H', n)
        else:
            out += b'\xdd' + struct.pack('>I', n)
        for v in o:
            _pack(v, out)
    elif isinstance(o, dict):
        n = len(o)
        if n < 16:
            out.append(0x80 | n)
        elif n < 1 << 16:
            out += b'\xde' + struct.pack('>H', n)
        else:
            out += b'\xdf' + struct.pack('>I', n)
        for k, v in o.items():
            _pack(k, out)
            _pack(v, out)
    else:
        raise TypeError(repr(o))


class _More(Exception):
    pass


class Unpacker(object):
    """Incremental decoder. Text and binary both decode to bytes, as the node
    accepts either for a string or byte field."""

    def __init__(self):
        self.buf = bytearray()

    def feed(self, b):
        self.buf += b

    def __iter__(self):
        while True:
            try:
                v, p = self._read(0)
            except _More:
                return
            del self.buf[:p]
            yield v

    def _take(self, p, n):
        if p + n > len(self.buf):
            raise _More()
        return bytes(self.buf[p:p + n]), p + n

    def _read(self, p):
        b, p = self._take(p, 1)
        c = b[0]
        if c < 0x80:
            return c, p
        if c >= 0xe0:
            return c - 256, p
        if c & 0xf0 == 0x80:
            return self._map(c & 15, p)
        if c & 0xf0 == 0x90:
            return self._arr(c & 15, p)
        if c & 0xe0 == 0xa0:
            return self._take(p, c & 31)
        if c == 0xc0:
            return None, p
        if c == 0xc2:
            return False, p
        if c == 0xc3:
            return True, p
        fixed = {0xcc: '>B', 0xcd: '>H', 0xce: '>I', 0xcf: '>Q',
                 0xd0: '>b', 0xd1: '>h', 0xd2: '>i', 0xd3: '>q',
                 0xca: '>f', 0xcb: '>d'}.get(c)
        if fixed:
            b, p = self._take(p, struct.calcsize(fixed))
            return struct.unpack(fixed, b)[0], p
        ln = {0xc4: '>B', 0xc5: '>H', 0xc6: '>I', 0xd9: '>B', 0xda: '>H', 0xdb: '>I'}.get(c)
        if ln:
            b, p = self._take(p, struct.calcsize(ln))
            return self._take(p, struct.unpack(ln, b)[0])
        if c in (0xdc, 0xdd):
            b, p = self._take(p, 2 if c == 0xdc else 4)
            return self._arr(int.from_bytes(b, 'big'), p)
        if c in (0xde, 0xdf):
            b, p = self._take(p, 2 if c == 0xde else 4)
            return self._map(int.from_bytes(b, 'big'), p)
        raise WireError('unsupported msgpack byte 0x%02x' % c)

    def _arr(self, n, p):
        out = []
        for _ in range(n):
            v, p = self._read(p)
            out.append(v)
        return out, p

    def _map(self, n, p):
        out = {}
        for _ in range(n):
            k, p = self._read(p)
            v, p = self._read(p)
            if isinstance(k, (list, dict)):
                raise WireError('unhashable map key')
            if k in out:
                raise WireError('duplicate map key %r' % (k,))
            out[k] = v
        return out, p


# ------------------------------------------------------------ typed objects
NIL, DICT, LIST, BYTES, STRING, BOOL, ADDRESS, INT = 0, 1, 2, 3, 4, 5, 10, 11


def enc_typed(v):
    if v is None:
        return [NIL, None]
    if isinstance(v, bool):
        return [BOOL, b'\x01' if v else b'\x00']
    if isinstance(v, int):
        return [INT, int_bytes(v)]
    if isinstance(v, str):
        return [STRING, v]
    if isinstance(v, bytes):
        return [BYTES, v]
    if isinstance(v, Addr):
        return [ADDRESS, v.raw]
    if isinstance(v, (list, tuple)):
        return [LIST, [enc_typed(x) for x in v]]
    if isinstance(v, dict):
        return [DICT, {k: enc_typed(x) for k, x in v.items()}]
    raise TypeError(repr(v))


def dec_typed(o):
    if not isinstance(o, list) or len(o) != 2 or isinstance(o[0], bool) or not isinstance(o[0], int):
        raise WireError('not a typed object: %r' % (o,))
    t, v = o
    if t == NIL:
        if v is not None:
            raise WireError('nil with a value')
        return None
    if t == DICT:
        if not isinstance(v, dict):
            raise WireError('typed dict: %r' % (v,))
        return {_text(k): dec_typed(x) for k, x in v.items()}
    if t == LIST:
        if not isinstance(v, list):
            raise WireError('typed list: %r' % (v,))
        return [dec_typed(x) for x in v]
    if not isinstance(v, bytes):
        raise WireError('typed scalar %d: %r' % (t, v))
    if t == BYTES:
        return v
    if t == STRING:
        return _text(v)
    if t == BOOL:
        if v not in (b'\x00', b'\x01'):
            raise WireError('bool %r' % v)
        return v == b'\x01'
    if t == INT:
        return int_from_strict(v)
    if t == ADDRESS:
        return dec_addr(v)
    raise WireError('unknown type tag %d' % t)


def _text(b):
    if not isinstance(b, bytes):
        raise WireError('text expected: %r' % (b,))
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError as e:
        raise WireError('invalid utf-8: %s' % e)


text = _text


def dec_addr(b):
    if not isinstance(b, bytes) or len(b) != 21 or b[0] not in (0, 1):
        raise WireError('address: %r' % (b,))
    return Addr(b)


def same(a, b):
    """Equality that also distinguishes bool/int and list/tuple-free types."""
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b
