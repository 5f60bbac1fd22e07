"""Addresses: text form, binary form, comparison."""
import re

from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..kit import calls, fixed, need, same, single
from ..wire import Addr

SOURCE = '''
from iconservice import *


def show(a):
    if a is None:
        return None
    return [a, str(a), repr(a), a.to_bytes(), a.body, int(a.prefix), a.is_contract, '%s' % a, f'{a}',
            isinstance(a, Address)]


class Main(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def run(self, ops: str):
        out = []
        for op in ops:
            try:
                out.append(['ok', getattr(self, '_' + op[0])(*op[1:])])
            except BaseException as e:
                out.append(['err', getattr(e, 'code', None)])
        return out

    def _text(self, t):
        return show(Address.from_string(t))

    def _bin(self, b):
        return show(Address.from_bytes(b))

    def _new(self, p, b):
        return show(Address(AddressPrefix(p), b))

    def _wire(self, a):
        b = Address.from_string(str(a))
        c = Address.from_bytes(a.to_bytes())
        return [show(a), a == b, a != b, hash(a) == hash(b), a == c, a != c, hash(a) == hash(c)]

    def _num(self, p, n):
        return show(Address.from_prefix_and_int(AddressPrefix(p), n))

    def _data(self, p, b):
        return show(Address.from_data(AddressPrefix(p), b))

    def _cmp(self, a, b):
        return [a == b, b == a, a != b, b != a, hash(a) == hash(b) or a != b, a in [b], a in {b}, {b: 1}.get(a),
                len({a, b})]

    def _cmpx(self, a, b):
        return [a == b, b == a, a != b, b != a]
'''

TEXT = re.compile(r'(?:hx|cx)[0-9a-f]{40}\Z', re.A)


def show(a):
    t = str(a)
    return [a, t, t, a.raw, a.raw[1:], a.raw[0], a.raw[0] == 1, t, t, True]


def bodies():
    return st.one_of(st.binary(min_size=20, max_size=20), st.sampled_from([
        b'\x00' * 20, b'\xff' * 20, b'\x00' * 19 + b'\x01', b'\x80' + b'\x00' * 19, b'\x12' * 20]))


def addr():
    return st.one_of(st.builds(lambda p, b: Addr(bytes([p]) + b), st.integers(0, 1), bodies()),
                     st.sampled_from([gen.A, gen.EOA]))


@st.composite
def near_text(draw):
    t = str(draw(addr()))
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 13))
        i = draw(st.integers(0, len(t))) if t else 0
        if k == 0:
            t = t.upper()
        elif k == 1:
            t = t[:i] + t[i:i + 1].upper() + t[i + 1:]
        elif k == 2:
            t = t[:i] + t[i + 1:]
        elif k == 3:
            t = t[:i] + draw(st.sampled_from(['0', 'a', 'g', ' ', '\n', 'x', '\x00', '\u0661', '\uff11', '-', '_'])) + t[i:]
        elif k == 4:
            t = t[:i] + draw(st.sampled_from(['0', 'a', 'g', ' ', '\n', 'x', '\x00', '\u0661', '\uff11', 'F', '_'])) + t[i + 1:]
        elif k == 5:
            t = draw(st.sampled_from(['', 'h', '0x', 'bx', 'hX', 'Hx', 'CX', 'cX', 'ch', 'hc', 'xx', 'hx', 'cx', '  ',
                                      'dx', 'h\u0445'])) + t[2:]
        elif k == 6:
            t = t + draw(st.sampled_from(['\n', ' ', '0', '00', '\x00', '\r\n']))
        elif k == 7:
            t = draw(st.sampled_from([' ', '\n', '0x', 'hx', '\t'])) + t
        elif k == 8:
            t = t[:-1] + draw(st.sampled_from(['\n', ' ', '\r', '\x85']))
        elif k == 9:
            t = t[:2] + t[2:] * 2
        elif k == 10:
            t = t[:draw(st.sampled_from([0, 1, 2, 3, 22, 40, 41]))]
        elif k == 11:
            t = t[2:]
        elif k == 12:
            t = t[:2] + draw(st.text(st.sampled_from('0123456789abcdefABCDEFgx \n'), min_size=38, max_size=42))
        else:
            pass
    return t


@st.composite
def near_bytes(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return draw(bodies())
    if k == 1:
        return bytes([draw(st.integers(0, 1))]) + draw(bodies())
    if k == 2:
        return bytes([draw(st.integers(0, 255))]) + draw(bodies())
    if k == 3:
        return draw(st.binary(max_size=45))
    return b'\x00' * draw(st.integers(0, 45))


@st.composite
def op(draw):
    k = draw(st.integers(0, 15))
    if k <= 5:
        return ('text', draw(st.one_of(near_text(), near_text(), near_text(), near_text(), gen.texts())))
    if k <= 8:
        return ('bin', draw(near_bytes()))
    if k == 9:
        return ('wire', draw(addr()))
    if k == 10:
        return ('new', draw(st.integers(-1, 3)), draw(st.one_of(bodies(), st.binary(max_size=40), st.just(None),
                                                                st.just('0' * 20))))
    if k == 11:
        return ('num', draw(st.integers(0, 1)), draw(st.one_of(
            st.integers(0, 2 ** 159 - 1), st.sampled_from([0, 1, 127, 128, 255, 2 ** 159 - 1, 2 ** 160, 2 ** 200]))))
    if k == 12:
        return ('data', draw(st.integers(0, 1)), draw(gen.blobs()))
    if k <= 14:
        a = draw(addr())
        j = draw(st.integers(0, 4))
        if j == 0:
            b = a
        elif j == 1:
            b = Addr(bytes([1 - a.raw[0]]) + a.raw[1:])
        elif j == 2:
            i = draw(st.integers(1, 20))
            b = Addr(a.raw[:i] + bytes([a.raw[i] ^ (1 << draw(st.integers(0, 7)))]) + a.raw[i + 1:])
        elif j == 3:
            b = Addr(a.raw[:1] + a.raw[:0:-1])
        else:
            b = draw(addr())
        return ('cmp', a, b)
    a = draw(addr())
    return ('cmpx', a, draw(st.one_of(st.just(str(a)), st.just(a.raw), st.just(a.raw[1:]), st.just(0), st.none())))


def expect(o):
    k = o[0]
    if k == 'text':
        return ['ok', show(Addr(o[1]))] if TEXT.match(o[1]) else ['err', 6]
    if k == 'bin':
        b = o[1]
        if len(b) == 20:
            return ['ok', show(Addr(b'\x00' + b))]
        if len(b) == 21 and b[0] in (0, 1):
            return ['ok', show(Addr(b))]
        return REFUSED
    if k == 'wire':
        return ['ok', [show(o[1]), True, False, True, True, False, True]]
    if k == 'new':
        if o[1] in (0, 1) and isinstance(o[2], bytes) and len(o[2]) == 20:
            return ['ok', show(Addr(bytes([o[1]]) + o[2]))]
        return ['err', None]
    if k == 'num':
        if o[2] >= 2 ** 160:
            return ['err', None]
        return ['ok', show(Addr(bytes([o[1]]) + o[2].to_bytes(20, 'big')))]
    if k == 'data':
        import hashlib
        return ['ok', show(Addr(bytes([o[1]]) + hashlib.sha3_256(o[2]).digest()[-20:]))]
    if k == 'cmp':
        e = o[1].raw == o[2].raw
        return ['ok', [e, e, not e, not e, True, e, e, 1 if e else None, 1 if e else 2]]
    return ['ok', [False, False, True, True]]


REFUSED = object()


def check(case, rec):
    out, _ = calls(single(fixed(SOURCE)), [('run', [list(case)])])
    r = out[0]
    need(r.status == 0, 'address operations failed with %s: %r', r.status, r.value)
    for o, v in zip(case, r.value):
        e = expect(o)
        if e is REFUSED:
            need(v[0] == 'err' or v == ['ok', None], 'binary form %r is not refused: %r', o[1], v)
            rec.hit(o[0] + ' refused')
        else:
            if e == ['err', None]:
                v = v[:1] + [None]
            same(e, v, 'address operation %s' % (o,))
            rec.hit('%s %s' % (o[0], e[0]))
        rec.nontrivial(o)


FACETS = [Facet('api', lambda: st.lists(op(), min_size=1, max_size=24), check, 1500, 60000,
                'every address operation; distinct by operation and operands')]
