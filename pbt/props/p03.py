"""Typed values in both directions, each checked on its own."""
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..kit import calls, fixed, need, single

from ..wire import Addr

SRC = '''
from iconservice import *


def show(v):
    t = type(v)
    if v is None:
        return 'N'
    if t is bool:
        return 'T' if v else 'F'
    if t is int:
        return 'i%x' % v
    if t is str:
        return 's' + v.encode('utf-8').hex()
    if t is bytes:
        return 'b' + v.hex()
    if t is list:
        return '[' + ','.join([show(x) for x in v]) + ']'
    if t is dict:
        if any(type(k) is not str for k in v):
            return '?keys'
        return '{' + ','.join([k.encode('utf-8').hex() + ':' + show(v[k]) for k in sorted(v)]) + '}'
    if t is Address:
        if Address.from_string(str(v)) != v or Address.from_bytes(v.to_bytes()) != v:
            return '?address'
        return 'a' + str(v) + ('c' if v.is_contract else 'h')
    return '?' + t.__name__


class Main(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self): pass
    def on_update(self): pass

    @payable
    @external
    def show(self, a: str, b: str, c: str):
        return [show(a), show(b), show(c), show(self.msg.value)]

    @external
    def echo(self, v: str):
        return v

    @external
    def digest(self, v: str):
        return sha3_256(show(v).encode('utf-8'))

    @external
    def keep(self, v: str):
        VarDB('kept', self.db, value_type=type(v)).set(v)

    @external
    def kept(self, b: str):
        v = VarDB('kept', self.db, value_type=type(b)).get()
        return [sha3_256(show(v).encode('utf-8')), v]

    @external
    def make(self, text: str):
        return eval(text)

    @external
    def wrap(self, text: str, how: int):
        v = eval(text)
        for i in range(how // 2):
            v = [v] if how % 2 else {'k': v}
        return v
'''


def show(v):
    """The same, on the values the node sends."""
    if v is None:
        return 'N'
    if v is True or v is False:
        return 'T' if v else 'F'
    if isinstance(v, int):
        return 'i%x' % v
    if isinstance(v, str):
        return 's' + v.encode('utf-8').hex()
    if isinstance(v, bytes):
        return 'b' + v.hex()
    if isinstance(v, list):
        return '[' + ','.join([show(x) for x in v]) + ']'
    if isinstance(v, dict):
        return '{' + ','.join([k.encode('utf-8').hex() + ':' + show(v[k]) for k in sorted(v)]) + '}'
    return 'a' + str(v) + ('c' if v.is_contract else 'h')





BIG = ["'x' * 65535", "'x' * 65536", "'é' * 32767", "'é' * 32768", "b'y' * 65535", "b'y' * 65536", "b'\\x00' * 255",
       "b'\\xff' * 256", "[0] * 15", "[0] * 16", "[None] * 65535", "[True] * 65536", "{str(i): i for i in range(15)}",
       "{str(i): i for i in range(16)}", "{str(i): None for i in range(2000)}", "{'k' * 65536: 1}", "{'k' * 31: 1, 'k' * 32: 2}",
       "1 << 8191", "-(1 << 8191)", "(1 << 16383) - 1", "[[[[[[[[1]]]]]]]]", "{'a': {'a': {'a': {'a': [b'', '', []]}}}}",
       "'x' * 31", "'x' * 32", "'x' * 255", "'x' * 256", "-(1 << 2039)", "1 << 2040"]

OTHER = ['1.5', '0.0', 'float("nan")', '{1, 2}', 'set()', 'frozenset()', 'object()', 'bytearray(b"x")', 'bytearray()',
         'memoryview(b"x")', '{1: 2}', '{b"a": 1}', '{None: 1}', '{(1,): 1}', '{True: 1}', '{"a": 1, 2: 3}',
         '{1.0: 1}', '1j', 'range(3)', 'iter([])', 'int', 'len', 'Ellipsis', 'NotImplemented', '(lambda: 1)',
         '(x for x in [1])', '{"a": 1}.keys()', '{}.values()', '{}.items()', 'Exception("x")', 'self', 'self.db',
         'Address', 'chr(0xd800)', '"a" + chr(0xdfff) + "b"', 'map(str, [1])', 'slice(1)', 'type', 'Main',
         '__import__("decimal").Decimal(1)', '__import__("fractions").Fraction(1)', '__import__("array").array("b")',
         '__import__("collections").deque()', '__import__("collections").UserDict()',
         '__import__("collections").UserString("x")', '__import__("collections").UserList()',
         '__import__("types").MappingProxyType({})', '__import__("datetime").date(2020, 1, 1)', '{Address: 1}',
         '{chr(0xd900): 1}', '__import__("types").SimpleNamespace(value=1)']


def to_expr(v):
    """A Python expression for v, to be evaluated by the contract."""
    if isinstance(v, Addr):
        return "Address.from_string('%s')" % v
    if isinstance(v, list):
        return '[' + ', '.join(to_expr(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (ascii(k), to_expr(x)) for k, x in v.items()) + '}'
    return ascii(v)


class _Address(object):
    @staticmethod
    def from_string(t):
        return Addr(t)


def ev(t):
    return eval(t, {'Address': _Address})


def value(big=True):
    t = gen.typed(2).map(to_expr)
    return st.one_of(t, t, t, t, t, t, t, gen.typed(3).map(to_expr), gen.ints().map(repr), st.sampled_from(BIG)) if big else t


def kind(v):
    return type(v).__name__


@st.composite
def in_cases(draw):
    # the node passes on amounts and limits of any size
    return {'reqs': [(draw(st.lists(value(), min_size=3, max_size=3)), abs(draw(gen.ints())))
                     for _ in range(draw(st.integers(1, 3)))]}


def check_in(case, rec):
    reqs = [('show', [ev(x) for x in ps], {'value': amount}) for ps, amount in case['reqs']]
    out, res = calls(single(fixed(SRC)), reqs)
    for (m, ps, k), r in zip(reqs, out):
        exp = [show(p) for p in ps] + [show(k['value'])]
        need(r.status == 0, 'request fails: %s', show(r.value))
        for p, e, a in zip(ps, exp, r.value):
            need(e == a, 'parameter %s arrives as %s', e[:200], a[:200])
        need(exp[3] == r.value[3], 'amount %s arrives as %s', exp[3], r.value[3])
        for p in ps:
            rec.hit(kind(p))
            if p not in (None, True, False):
                rec.nontrivial(show(p))


def strict(e, a):
    """Equal, and of the same kinds at every level."""
    if type(e) is not type(a):
        return False
    if isinstance(e, list):
        return len(e) == len(a) and all(strict(x, y) for x, y in zip(e, a))
    if isinstance(e, dict):
        return set(e) == set(a) and all(strict(e[k], a[k]) for k in e)
    return e == a


@st.composite
def out_cases(draw):
    return {'values': draw(st.lists(st.tuples(st.sampled_from(['make', 'echo', 'make', 'wrap']), value(),
                                              st.integers(0, 9)), min_size=1, max_size=5))}


def check_out(case, rec):
    reqs, exp = [], []
    for m, t, n in case['values']:
        v = ev(t)
        if m == 'wrap':
            reqs.append((m, [t, n]))
            for i in range(n // 2):
                v = [v] if n % 2 else {'k': v}
        else:
            reqs.append((m, [v if m == 'echo' else t]))
        exp.append(v)
    out, res = calls(single(fixed(SRC)), reqs)
    for q, e, r in zip(reqs, exp, out):
        need(r.status == 0, '%s of %s fails: %s', q[0], show(q[1][0])[:300], show(r.value))
        need(strict(e, r.value), '%s returned by %s reaches the node as %s', show(e)[:300], q[0], show(r.value)[:300])
        rec.hit(kind(e))
        rec.nontrivial(show(e))


@st.composite
def other_cases(draw):
    """A value of an unsupported type somewhere inside."""
    def nest(d):
        if d == 0:
            return draw(st.sampled_from(OTHER))
        before = draw(st.lists(gen.typed(0).map(to_expr), max_size=2))
        inner = nest(d - 1)
        k = draw(st.integers(0, 2))
        if k == 0:
            return '[' + ', '.join(before + [inner]) + ']'
        if k == 1:
            return '[' + ', '.join([inner] + before) + ']'
        items = ['%r: %s' % ('k%d' % i, x) for i, x in enumerate(before)]
        return '{' + ', '.join(items + ["'z': " + inner]) + '}'
    return {'values': [(nest(draw(st.integers(0, 3))), draw(st.integers(0, 5))) for _ in range(draw(st.integers(1, 4)))],
            'last': draw(value(False))}


def check_other(case, rec):
    reqs = [('wrap', [t, n]) for t, n in case['values']] + [('make', [case['last']])]
    out, res = calls(single(fixed(SRC)), reqs)
    for q, r in zip(reqs, out[:-1]):
        need(r.status != 0, 'a result with %s reaches the node as %s', q[1], show(r.value)[:300])
        rec.hit('status %d' % r.status)
        rec.nontrivial(q[1][0])
    need(out[-1].status == 0 and strict(ev(case['last']), out[-1].value),
         'after refused results %s is returned as %s', case['last'], show(out[-1].value)[:300])


@st.composite
def huge_cases(draw):
    """Values far larger than any buffer on the way."""
    def size(top):
        return draw(st.one_of(st.integers(0, top), st.integers(-9, 9).map(lambda d: top // 4 + d),
                              st.integers(top // 2, top)))
    reqs = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(['bytes', 'str', 'wide', 'int', 'list', 'dict', 'strs', 'deep']))
        top = 1 << draw(st.sampled_from([18, 18, 18, 18, 19, 20, 20, 21] + [23] * (k in ('bytes', 'str'))))
        reqs.append((draw(st.sampled_from(['digest', 'echo', 'digest', 'echo', 'keep'])), k, size(top)))
    return {'reqs': reqs, 'chunk': draw(st.sampled_from([0, 4096, 65536]))}


def huge(kind, n):
    """A value of about n bytes on the wire."""
    if kind == 'bytes':
        return bytes(range(256)) * (n // 256) + b'z' * (n % 256)
    if kind == 'str':
        return 'abcdefg' * (n // 7) + 'z' * (n % 7)
    if kind == 'wide':
        return '\u00e9\uac00\U0001f600' * (n // 9) + 'z' * (n % 9)
    if kind == 'int':
        return (0x5a << (n * 8)) + n
    if kind == 'list':
        return [i & 127 for i in range(n // 4)]
    if kind == 'dict':
        return {'key%d' % i: i for i in range(n // 20)}
    if kind == 'strs':
        return ['x' * 1000 + str(i) for i in range(n // 1010)]
    return [[{'a': [i, b'y' * 300, None], 'b': {'c': 'z' * 40}}] for i in range(n // 400)]


def check_huge(case, rec):
    from hashlib import sha3_256

    def digest(v):
        return sha3_256(show(v).encode('utf-8')).digest()
    reqs, exp = [], []
    for m, k, n in case['reqs']:
        v = huge(k, n)
        if m == 'keep' and k in ('bytes', 'str', 'wide', 'int'):
            reqs += [(m, [v]), ('kept', [type(v)()])]
            exp += [None, [digest(v), v]]
        else:
            m = 'echo' if m == 'keep' else m
            reqs.append((m, [v]))
            exp.append(v if m == 'echo' else digest(v))
    kw = {'chunks': [case['chunk']]} if case['chunk'] else {}
    out, res = calls(single(fixed(SRC)), reqs, **kw)
    for (m, ps), e, r in zip(reqs, exp, out):
        need(r.status == 0, '%s of a %s of %d bytes fails: %s', m, type(ps[0]).__name__, len(show(ps[0])), show(r.value)[:200])
        need(strict(e, r.value), '%s of a %s of %d bytes gives another value', m, type(ps[0]).__name__, len(show(ps[0])))
    for m, k, n in case['reqs']:
        rec.hit(k)
        rec.hit('size 2**%d' % n.bit_length())
        if n >= 1 << 17:
            rec.nontrivial('%s %s %d' % (m, k, n))


FACETS = [
    Facet('in', in_cases, check_in, 1000, 80000, 'every parameter but null and booleans; distinct by value'),
    Facet('out', out_cases, check_out, 900, 80000, 'every result; distinct by value'),
    Facet('huge', huge_cases, check_huge, 150, 6000,
          'every value of at least 128 kB; distinct by kind, size and way'),
    Facet('other', other_cases, check_other, 300, 25000,
          'every result with a value of an unsupported type in it; distinct by expression'),
]
