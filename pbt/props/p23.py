"""JSON helpers against the standard library, and their metering."""
import json

from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..kit import SELF, calls, fixed, need, single
from ..sim import run_both

SRC = '''
from iconservice import *
from iconservice import json_dumps as jd, json_loads as jl


class Peer(InterfaceScore):
    @interface
    def run(self, items): pass

    @interface
    def query(self, items): pass


class Main(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self): pass
    def on_update(self): pass

    def _do(self, items):
        out = []
        nan, inf = float('nan'), float('inf')
        for op, text in items:
            if op == 'nest':
                p = self.create_interface_score(self.address, Peer)
                out.append(p.run(text) if len(out) % 2 else p.query(text))
                continue
            v = eval(text)
            try:
                if op == 'd':
                    r = jd(v)
                elif op == 'l':
                    r = jl(v)
                else:
                    r = jl(jd(v))
                out.append([type(r).__name__, ascii(r)])
            except Exception as e:
                out.append(['!', type(e).__name__])
        return out

    @external
    def run(self, items: str):
        return self._do(items)

    @external(readonly=True)
    def query(self, items: str):
        return self._do(items)

    @external
    def loose(self, op: str, text: str):
        nan, inf = float('nan'), float('inf')
        v = eval(text)
        return [jd(v) if op == 'd' else jl(v)]
'''

TEXTS = ['', ' ', '{}', '[]', '[1,]', '{"a":1,}', "{'a':1}", '{"a":1,"a":2}', 'nul', 'null', 'true', 'True', 'NaN',
         '-Infinity', '1e5', '1E400', '-0', '01', '.5', '1.', '0x10', '"a\\u00e9"', '"\\ud83d\\ude00"', '"\\ud800"',
         '"\t"', '"\\x"', '[1 2]', '\ufeff{}', '123456789012345678901234567890', '-1.5e-7', '"é가\U0001f600"',
         '[[[[]]]]', '{"é":"é"}', '{"b":1,"a":2}', '"/"', '"\\/"', '"\x7f"', '[1]x', '\u00a0[]', '{1:2}', '"',
         '{"a": [1, 2.50, {"b": null}]}', '[', '{"', ']']
EXPRS = ['{1, 2}', 'b"x"', 'object()', 'nan', 'inf', '-inf', '1e400', '{1: 2, 2: 1}', '{None: 1}', '{True: 1, 1.5: 2}',
         '{b"k": 1}', '{(1,): 2}', '(1, 2)', '1.0', '1e22', '0.1', '-0.0', '[(1,), ()]', 'Address.from_string("cx" + "0"*40)',
         'chr(0xd800)', '[chr(0xdc00)]', '(lambda x: x.append(x) or x)([])', 'range(3)', 'iter([])', '10**400',
         '(lambda x: [x, x])([1])', 'type("I", (int,), {})(5)', 'type("S", (str,), {})("s")', 'Ellipsis', '1j',
         '{"z": 1, "a": [True, False, None]}']
DEEP = [5, 50, 300, 300000]


def plain(depth=3):
    leaf = st.one_of(st.none(), st.booleans(), gen.ints(), gen.texts([0, 1, 9, 10, 11, 99, 100, 101, 300]),
                     st.floats(allow_nan=False, allow_infinity=False), st.integers(-10, 10))
    return st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=4),
                                                  st.dictionaries(gen.texts([0, 1]), s, max_size=4)), max_leaves=8)


@st.composite
def text(draw):
    k = draw(st.integers(0, 7))
    if k <= 1:
        return draw(st.sampled_from(TEXTS))
    if k == 2:
        n = draw(st.sampled_from(DEEP))
        return draw(st.sampled_from([('%r * %d' % ('[', n)), ('%r * %d + %r * %d' % ('[', n, ']', n)),
                                     ('%r * %d' % ('{"a":', n))]))
    v = draw(plain())
    t = json.dumps(v, indent=draw(st.sampled_from([None, None, 1])), ensure_ascii=draw(st.booleans()),
                   separators=draw(st.sampled_from([None, (',', ':'), (' , ', ' :\n')])))
    if k == 3 and t:
        i = draw(st.integers(0, len(t) - 1))
        t = t[:i] + draw(st.sampled_from(['', '"', ',', 'x', '\\', '}', '0', '\n', 'é'])) + t[i + 1:]
    return t


@st.composite
def item(draw, depth=1):
    k = draw(st.integers(0, 9))
    if k <= 3:
        if draw(st.integers(0, 9)) == 0:
            return ('l', draw(st.sampled_from(['None', '5', 'b"[1]"', '["[]"]', '{}', 'True', 'bytearray(b"1")'])))
        t = draw(text())
        return ('l', t if ' * ' in t and t.startswith("'") else repr(t))
    op = 'd' if k <= 6 else 'rt'
    if draw(st.integers(0, 3)) == 0:
        return (op, draw(st.sampled_from(EXPRS)))
    if k == 9 and depth:
        return ('nest', [draw(item(0)) for _ in range(draw(st.integers(1, 3)))])
    return (op, repr(draw(plain())))


@st.composite
def cases(draw):
    return {'api': draw(st.sampled_from([0, 1, 7, 10, 99, 1000, 10000, 12345])),
            'schema': draw(st.integers(0, 1)),
            'rev': draw(st.sampled_from([0, 256, 256, 256, 255, 257, 511, 512, 768, 1, 2 ** 40, 2 ** 40 + 256,
                                         2 ** 64 - 1, 2 ** 64 - 1 - 256])),
            'method': draw(st.sampled_from(['run', 'run', 'query'])),
            'items': draw(st.lists(item(), min_size=1, max_size=6))}


class _A(object):
    @staticmethod
    def from_string(t):
        return object()


def _eval(t):
    return eval(t, {'nan': float('nan'), 'inf': float('inf'), 'Address': _A})


def expected(items, compact, api, rec):
    """(outcomes, steps) by the book."""
    out, steps = [], 0
    cd, cl = api * 5000 // 1000, api * 4000 // 1000

    def dumps(v):
        nonlocal steps
        r = json.dumps(v, separators=(',', ':')) if compact else json.dumps(v)
        if compact:
            steps += cd + cd * len(r.encode('utf-8')) // 100
        return r

    def loads(s):
        nonlocal steps
        if not isinstance(s, str):
            return None
        if compact:
            steps += cl + cl * len(s.encode('utf-8')) // 100
        return json.loads(s)
    for op, t in items:
        if op == 'nest':
            o, s = expected(t, compact, api, rec)
            out.append(o)
            steps += s
            continue
        v = _eval(t)
        try:
            r = dumps(v) if op == 'd' else loads(v) if op == 'l' else loads(dumps(v))
            out.append([type(r).__name__, ascii(r)])
            rec.hit('%s gives %s' % (op, type(r).__name__))
        except Exception as e:
            out.append(['!', type(e).__name__])
            rec.hit('%s fails: %s' % (op, type(e).__name__))
        rec.nontrivial((op, t, compact))
    return out, steps


def run(case, reqs):
    w = single(fixed(SRC), {'schema': case['schema'], 'apiCall': case['api']}, case['rev'])
    w.contracts[SELF].readonly.add('query')
    return calls(w, reqs)


def check(case, rec):
    out, res = run(case, [(case['method'], [case['items']])])
    exp, steps = expected(case['items'], bool(case['rev'] & 256), case['api'], rec)
    r = out[0]
    need(r.status == 0, 'request fails with %s %r', r.status, r.value)
    for i, (e, a) in enumerate(zip(exp, r.value)):
        need(e == a, 'item %d: %s should be %s', i, str(a)[:300], str(e)[:300])
    need(r.steps == steps, '%d steps are charged instead of %d', r.steps, steps)


@st.composite
def fail_cases(draw):
    return dict(draw(cases()), loose=draw(st.lists(st.tuples(st.sampled_from(['d', 'l']), st.one_of(
        st.sampled_from(EXPRS), text().map(lambda t: t if ' * ' in t and t.startswith("'") else repr(t)),
        item(0).map(lambda x: x[1]))), min_size=1, max_size=4)))


def check_fail(case, rec):
    """Uncaught failures end just that request."""
    reqs = [('loose', [op, t]) for op, t in case['loose']] + [(case['method'], [case['items']])]
    out, res = run(case, reqs)
    compact = bool(case['rev'] & 256)
    for (op, t), r in zip(case['loose'], out):
        v = _eval(t)
        try:
            if op == 'd':
                x = json.dumps(v, separators=(',', ':')) if compact else json.dumps(v)
            else:
                x = json.loads(v) if isinstance(v, str) else None
        except Exception as e:
            need(r.status == 1, '%s of %s: status %s instead of a failure', op, t[:80], r.status)
            rec.hit('request fails: %s' % type(e).__name__)
            rec.nontrivial((op, t, compact))
            continue
        if isinstance(x, str) and not gen.utf8(x):
            continue
        if op == 'd' or isinstance(x, (str, int, bool)) or x is None:
            need(r.status == 0 and r.value == [x] and type(r.value[0]) is type(x), '%s of %s gives %s %s instead of %r',
                 op, t[:80], r.status, str(r.value)[:200], x)
            rec.hit('request succeeds')
    exp, steps = expected(case['items'], compact, case['api'], rec)
    need(out[-1].status == 0 and out[-1].value == exp and out[-1].steps == steps,
         'after failed requests: %s %s', out[-1].steps, str(out[-1].value)[:300])


FACETS = [
    Facet('values', cases, check, 1800, 80000, 'every print, parse and round trip; distinct by operand and form'),
    Facet('failing', fail_cases, check_fail, 700, 30000,
          'every failing request, print and parse; distinct by operand and form'),
]
