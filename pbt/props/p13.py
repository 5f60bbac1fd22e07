"""Named textual parameters against a strict grammar of the basic types."""
import re

from hypothesis import strategies as st

from .. import gen
from .. import scores
from ..core import Facet
from ..kit import CALLER, SELF, need, same, single
from ..node import Invoke, run_requests
from ..wire import Addr
from .p24 import TEXT, near_text

INT = re.compile(r'-?(?:0x[0-9a-fA-F]+|[0-9]+)\Z')
HEX = re.compile(r'(?:0x)?(?:[0-9a-fA-F]{2})*\Z')
TYPES = ['int', 'str', 'bytes', 'bool', 'Address']
HINTS = {'int': ['int', 'int', 'Optional[int]', 'Union[int, None]'], 'str': ['str', '', 'Optional[str]'],
         'bytes': ['bytes', 'Optional[bytes]'], 'bool': ['bool', 'Optional[bool]'],
         'Address': ['Address', "'Address'", 'Optional[Address]']}
DEFAULTS = {'int': [('0', 0), ('-7', -7), ('2**70', 2 ** 70)], 'str': [("''", ''), ("'dé'", 'dé')],
            'bytes': [("b''", b''), ("b'x'", b'x')], 'bool': [('True', True), ('False', False)],
            'Address': [('SYSTEM_SCORE_ADDRESS', Addr('cx' + '00' * 20))]}
BAD = object()
WILD = object()


def convert(t, s):
    """The value a text denotes, BAD, or WILD where the rules leave it open."""
    if t == 'str':
        return s
    if t in ('int', 'bool'):
        if s[:1] == '+' and re.match(r'\+[0-9]+\Z', s):
            return WILD
        if not INT.match(s):
            return BAD
        v = int(s, 16) if 'x' in s else int(s)
        return bool(v) if t == 'bool' else v
    if t == 'bytes':
        if not HEX.match(s):
            return BAD
        return bytes.fromhex(s[2:] if s.startswith('0x') else s)
    return Addr(s) if TEXT.match(s) else BAD


DIGITS = ['0', '1', '9', 'a', 'F', 'f', 'g', ' ', '_', '-', '+', '.', 'x', 'X', '\n', '\t', '\x00', '\u0661', '\uff11', 'e',
          'L', '\u00b2', '\u2003', '\x1f', '\u2212', ',', "'"]


@st.composite
def mangled(draw, s):
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        i = draw(st.one_of(st.just(0), st.just(len(s)), st.integers(0, len(s)), st.just(min(2, len(s)))))
        c = draw(st.sampled_from(DIGITS))
        s = draw(st.sampled_from([s[:i] + c + s[i:], s[:i] + c + s[i + 1:], s[:i] + s[i + 1:]]))
    return s


@st.composite
def int_text(draw):
    v = draw(gen.ints())
    f = draw(st.sampled_from(['%d', '0x%x', '0x%X', '%#x', '0x0%x', '00%d', '0x00%X', '0b1', '0o7', '0X%x']))
    a = abs(v)
    s = ('-' if v < 0 else '') + (f % a if '%' in f else f)
    return draw(mangled(s))


@st.composite
def text_for(draw, t):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(gen.texts([0, 1, 300]))
    if k == 1:
        t = draw(st.sampled_from(TYPES))
    if t == 'int':
        return draw(int_text())
    if t == 'bool':
        return draw(st.one_of(st.sampled_from(['0x0', '0x1', '0', '1', '0x2', 'true', 'false', 'True', '', '-1', '0x',
                                               '-0', '0x00', '0x01', '01', '-0x1', ' 1', '1\n', '1_0']), int_text()))
    if t == 'bytes':
        b = draw(gen.blobs([0, 1, 32, 300]))
        h = b.hex()
        h = draw(st.sampled_from([h, h.upper(), '0x' + h, '0x' + h.upper(), '0X' + h, '0x0' + h, h + '0', '0x0x' + h]))
        return draw(mangled(h))
    if t == 'Address':
        return draw(near_text())
    return draw(gen.texts([0, 1, 300]))


PNAMES = ['a', 'b', 'value', '_to', 'cls', 'name', 'x1', 'params', 'type', 'é', 'func_name', 'method', 'from_', 'data']

# what is said of results does not matter
RETURNS = ['', '', '', 'None', 'int', 'list', "'Undefined'", "'Main'", "List['Undefined']", "'not a type'", "'list'"]


@st.composite
def signature(draw):
    names = draw(st.lists(st.sampled_from(PNAMES), max_size=4, unique=True))
    opt = draw(st.integers(0, len(names))) if draw(st.booleans()) else 0
    ps = []
    for i, n in enumerate(names):
        t = draw(st.sampled_from(TYPES))
        d = None
        if i >= len(names) - opt:
            d = draw(st.sampled_from(DEFAULTS[t] + [('None', None)]))
        ps.append((n, t, draw(st.sampled_from(HINTS[t])), d))
    return ps


@st.composite
def cases(draw):
    kinds = draw(st.lists(st.sampled_from(['external', 'external', 'external(readonly=True)', 'payable external', 'hook']),
                          min_size=1, max_size=3))
    funcs = [(k, draw(signature())) for k in kinds]
    if sum(k == 'hook' for k in kinds) > 1:
        funcs = [('external', ps) if k == 'hook' and i else (k, ps) for i, (k, ps) in enumerate(funcs)]
    reqs = []
    for _ in range(draw(st.integers(2, 10))):
        f = draw(st.integers(0, len(funcs) - 1))
        ps = funcs[f][1]
        p = {}
        # most parameters are fine, so that a bad one matters alone
        worst = draw(st.integers(-2, len(ps) - 1))
        for i, (n, t, h, d) in enumerate(ps):
            if d is not None and draw(st.booleans()):
                continue
            s = draw(text_for(t))
            if i != worst and convert(t, s) is BAD:
                s = {'int': '0x1f', 'bool': '0x1', 'bytes': '0x00ff', 'Address': 'hx' + '5a' * 20}[t]
            p[n] = s
        k = draw(st.integers(0, 9))
        if k == 0 and p:
            p.pop(draw(st.sampled_from(sorted(p))))
        elif k == 1:
            p[draw(st.sampled_from(['zz', 'A', 'self', '', ' a', 'b ', 'args', 'kwargs', 'a\x00'] + PNAMES))] = '0x1'
        reqs.append((f, p))
    rets = [draw(st.sampled_from(RETURNS)) if k != 'external(readonly=True)' else '' for k, ps in funcs]
    return {'funcs': funcs, 'reqs': reqs, 'rets': rets, 'shape': draw(st.sampled_from(['plain', 'plain', 'inherit']))}


def render(case):
    out = ['from typing import *\nfrom iconservice import *\n\n\n']
    body = []
    names = []
    hook = False
    for i, (k, ps) in enumerate(case['funcs']):
        name = 'on_update' if k == 'hook' else 'f%d' % i
        names.append(name)
        hook = hook or k == 'hook'
        if k != 'hook':
            for d in k.split(' ') if '(' not in k else [k]:
                body.append('    @%s\n' % d)
        args = ''.join(', %s%s%s' % (n, ': ' + h if h else '', ' = ' + d[0] if d else '') for n, t, h, d in ps)
        ret = case['rets'][i]
        body.append('    def %s(self%s)%s:\n' % (name, args, ret and ' -> ' + ret))
        if k != 'external(readonly=True)':
            body.append("        VarDB('ran', self.db, int).set(1)\n")
        body.append('        return [%s]\n\n' % ', '.join(n for n, t, h, d in ps))
    base = ['    def __init__(self, db: IconScoreDatabase) -> None:\n        super().__init__(db)\n\n',
            '    def on_install(self) -> None:\n        super().on_install()\n\n']
    if not hook:
        base.append('    def on_update(self) -> None:\n        super().on_update()\n\n')
    base.append('    @external\n    def zz(self):\n        pass\n\n')
    if case['shape'] == 'inherit':
        out += ['class Base(IconScoreBase):\n'] + base + body + ['\n\nclass Main(Base):\n    pass\n']
    else:
        out += ['class Main(IconScoreBase):\n'] + base + body
    return ''.join(out), names


def check(case, rec):
    src, names = render(case)
    path = scores.package(src)
    ro = [n for n, (k, _) in zip(names, case['funcs']) if 'readonly' in k]
    out, _ = run_requests(single(path, readonly=ro), [Invoke(SELF, names[f], p, frm=CALLER) for f, p in case['reqs']])
    scores.discard(path)
    for (f, p), r in zip(case['reqs'], out):
        kind, ps = case['funcs'][f]
        what = '%s(%s) with %r' % (names[f], ', '.join('%s: %s%s' % (n, h or 'str', ' = ' + d[0] if d else '')
                                                        for n, t, h, d in ps), p)
        bad = set(p) - {x[0] for x in ps}
        why = 'unknown name' if bad else None
        vals = []
        for n, t, h, d in ps:
            if n in p:
                v = convert(t, p[n])
                if v is BAD:
                    why = why or 'invalid %s' % t
            elif d is None:
                why = why or 'missing'
                v = None
            else:
                v = d[1]
            vals.append(v)
        if WILD in vals:
            rec.hit('left open')
            continue
        if why:
            need(r.status != 0, '%s: should fail (%s) but returned %r', what, why, r.value)
            need(not [m for m in r.frame.msgs if m[0] == 'SETVALUE'], '%s: ran the method although it should not (%s)',
                 what, why)
            rec.hit(why)
        else:
            need(r.status == 0, '%s: failed with %s (%r)', what, r.status, r.value)
            same(vals, r.value, what)
            rec.hit('converted')
        if ps:
            rec.nontrivial((ps, sorted(p.items())))


FACETS = [Facet('texts', cases, check, 1500, 80000,
                'a request of a method with parameters; distinct by signature and texts')]
