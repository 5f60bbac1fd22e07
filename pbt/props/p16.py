"""Generated event declarations and calls against the declaration rules."""
from hypothesis import strategies as st

from .. import classgen as cg
from .. import gen
from .. import scores
from ..core import Facet
from ..kit import CALLER, SELF, need, same, single
from ..node import Invoke, run_requests
from ..wire import Addr, int_bytes
from .p10 import DEFAULT

PNAMES = ['a', 'b', 'c', 'd', 'e', '_from', 'amount', 'indexed', 'name', 'func', 'é', 'event']
ENAMES = ['E', 'Transfer', 'ICXTransfer', 'ICXTransfer', '_hidden', 'ICXTransfers', 'É', 'e' * 60, 'F']
RESERVED = ['Address', 'Address', 'int']
PY = {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'Address': Addr}


@st.composite
def declaration(draw, name):
    if name == 'ICXTransfer' and draw(st.booleans()):
        ts = draw(st.sampled_from([RESERVED, RESERVED, ["'Address'", 'Address', 'int'], ['Address', 'Address'],
                                   ['Address', 'Address', 'int', 'bytes'], ['Address', 'Address', 'str'], ['Address', 'int', 'Address']]))
        ps = [('pqrs'[i], t, None) for i, t in enumerate(ts)]
    else:
        names = draw(st.permutations(PNAMES))
        ps = draw(cg.params((), names=names, most=6, events=True))
    return (name, ps, draw(st.integers(0, min(3, len(ps)))), draw(st.sampled_from(['main', 'main', 'base', 'over'])))


def value(t):
    return st.one_of(gen.of_type(t), gen.of_type(t), gen.of_type(t), gen.of_type(t), gen.of_type(t), st.none())


@st.composite
def call(draw, decls):
    d = draw(st.sampled_from(decls))
    name, ps, indexed, where = d
    vals = [draw(value(cg.strip(h)[1].strip("'"))) for n, h, df in ps]
    k = draw(st.integers(0, len(ps)))
    args = vals[:k]
    kw = {}
    for (n, h, df), v in zip(ps[k:], vals[k:]):
        if df is None or draw(st.booleans()):
            kw[n] = v
    w = draw(st.integers(0, 13))
    if w == 0:
        args = args + [draw(gen.ints())]
    elif w == 1 and args:
        i = draw(st.integers(0, len(args) - 1))
        args = args[:i] + [draw(st.one_of(gen.of_type(draw(st.sampled_from(cg.BASE))), st.sampled_from(
            [[1], {'a': 1}, [], {}])))] + args[i + 1:]
    elif w == 2 and kw:
        kw.pop(draw(st.sampled_from(sorted(kw))))
    elif w == 3 and args:
        kw[draw(st.sampled_from([p[0] for p in ps]))] = draw(gen.ints())
    elif w == 4:
        kw[draw(st.sampled_from(['zz', 'A', 'a', 'b', 'é']))] = draw(gen.ints())
    elif w == 5 and kw:
        n = draw(st.sampled_from(sorted(kw)))
        kw[n] = draw(st.one_of(gen.of_type(draw(st.sampled_from(cg.BASE))), st.just([1])))
    elif w == 6 and kw:
        n = draw(st.sampled_from(sorted(kw)))
        kw[draw(st.sampled_from(['zz', n + '_', n.upper() + 'x']))] = kw.pop(n)
    elif w == 7:
        args = args[:-1]
    return (name, args, kw)


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(ENAMES), min_size=1, max_size=3, unique=True))
    decls = [draw(declaration(n)) for n in names]
    return {'decls': decls, 'calls': draw(st.lists(call(decls), min_size=1, max_size=12))}


def event_source(cls, d):
    name, ps, indexed, where = d
    dec = 'eventlog' if not indexed else 'eventlog(indexed=%d)' % indexed
    return cg.render(cls, dict(cg.member(name, [dec], ps)))


def source(case):
    out = [cg.HEAD, 'class Base(IconScoreBase):\n'
           '    def __init__(self, db: IconScoreDatabase) -> None:\n        super().__init__(db)\n\n'
           '    def on_install(self) -> None:\n        super().on_install()\n\n'
           '    def on_update(self) -> None:\n        super().on_update()\n\n']
    for d in case['decls']:
        if d[3] == 'base':
            out.append(event_source('Base', d))
        elif d[3] == 'over':
            # replaced by the declaration in the derived class
            out.append('    @eventlog\n    def %s(self, q: int): pass\n\n' % d[0])
    out.append('\n\nclass Main(Base):\n'
               '    @external\n    def run(self, ops: str):\n        out = []\n        for name, args, kw in ops:\n'
               '            try:\n                out.append([True, getattr(self, name)(*args, **kw)])\n'
               '            except BaseException as e:\n                out.append([False, None])\n'
               '        return out\n\n')
    for d in case['decls']:
        if d[3] != 'base':
            out.append(event_source('Main', d))
    return ''.join(out)


def enc(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return b'\x01' if v else b'\x00'
    if isinstance(v, int):
        return int_bytes(v)
    if isinstance(v, str):
        return v.encode('utf-8')
    if isinstance(v, bytes):
        return v
    return v.raw


def expected(d, args, kw):
    """The event (indexed, data), None if refused, or 'open'."""
    name, ps, indexed, where = d
    ts = [cg.strip(h)[1].strip("'") for n, h, df in ps]
    if name == 'ICXTransfer' and ts == RESERVED:
        return None
    if len(args) > len(ps) or set(kw) - {p[0] for p in ps} or set(kw) & {p[0] for p in ps[:len(args)]}:
        return None
    vals = []
    loose = False
    for i, (n, h, df) in enumerate(ps):
        if i < len(args):
            v = args[i]
        elif n in kw:
            v = kw[n]
        elif df is not None:
            v = DEFAULT[df]
        else:
            return None
        if v is not None and type(v) is not PY[ts[i]]:
            if ts[i] == 'int' and isinstance(v, bool):
                loose = True
            else:
                return None
        vals.append(v)
    if loose:
        return 'open'
    sig = '%s(%s)' % (name, ','.join(ts))
    return [sig.encode('utf-8')] + [enc(v) for v in vals[:indexed]], [enc(v) for v in vals[indexed:]]


def check(case, rec):
    path = scores.package(source(case))
    out, _ = run_requests(single(path), [Invoke(SELF, 'run', [case['calls']], frm=CALLER)])
    scores.discard(path)
    r = out[0]
    need(r.status == 0, 'contract failed with %s (%r)', r.status, r.value)
    evs = [[m[1], m[2]] for m in r.frame.msgs if m[0] == 'EVENT']
    need(not [m for m in r.frame.msgs if m[0] == 'SETVALUE'], 'the body of an event function was executed')
    decls = {d[0]: d for d in case['decls']}
    for (name, args, kw), got in zip(case['calls'], r.value):
        d = decls[name]
        what = 'event %s(%s) indexed=%d called with %r %r' % (
            name, ', '.join('%s: %s%s' % (n, h, ' = ' + df if df else '') for n, h, df in d[1]), d[2], args, kw)
        e = expected(d, args, kw)
        if e == 'open':
            rec.hit('left open')
            if got[0]:
                evs.pop(0)
            continue
        if e is None:
            need(got[0] is False, '%s: is not refused', what)
            rec.hit('refused')
        else:
            need(got[0] is True, '%s: is refused', what)
            need(evs, '%s: no event is sent', what)
            same(list(e), evs.pop(0), what)
            rec.hit('sent with %d indexed' % d[2])
        rec.nontrivial((d, args, sorted(kw.items())))
    need(not evs, 'surplus events %r', evs)


FACETS = [Facet('calls', cases, check, 1500, 80000, 'every event call; distinct by declaration and arguments')]
