"""Step limits at every boundary of every charge."""
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..node import Violation
from ..sim import compare, model_run, request, run_both, world
from ..node import run_requests

MIX = {'db': 12, 'ev': 3, 'call': 2, 'hash': 2, 'try': 1, 'json': 1, 'revert': 1, 'raise': 1}


@st.composite
def cases(draw, mix, **kw):
    case = draw(gen.histories(mix, table=gen.costs(safe=True), **kw))
    case['cuts'] = [[draw(st.integers(0, 400)), draw(st.sampled_from([-1, -1, 0, 0, 0, 1, 2]))]
                    for _ in case['reqs']]
    return case


def limits(case):
    """Puts the limit of each request right at one of its charges."""
    c = dict(case, reqs=[dict(r) for r in case['reqs']])
    for i, (k, d) in enumerate(case['cuts']):
        w = world(c['costs'], c['revision'], c['balances'])
        sim, roots = model_run(w, c['costs'], c['revision'], c['balances'], c['reqs'][:i + 1])
        root = roots[-1]
        peaks = sorted({p for f in sim.frames if _root(f) is root for p in f.meter.peaks})
        if peaks:
            c['reqs'][i]['limit'] = max(0, peaks[k % len(peaks)] + d)
    return c


def _root(f):
    while f.parent is not None:
        f = f.parent
    return f


def check(case, rec):
    c = limits(case)
    sim, roots, res, w = run_both(c)
    rec.hits(sim.stats)
    for m, r in zip(roots, res.roots):
        _bound(r)
    if any(f.status == 10 for f in sim.frames) and sim.stats.get('op vset', 0) + sim.stats.get('op dset', 0) + \
            sim.stats.get('op aput', 0):
        rec.hit('deferred accounting near the limit', sum(
            1 for f in sim.frames if f.status == 10 and f.meter.charges and f.meter.charges[-1] > 0))
    if any(f.status == 10 for f in sim.frames):
        rec.nontrivial(c)


def _bound(fr):
    if fr.reply.steps > fr.req.limit:
        raise Violation('%s reports %d steps with a limit of %d' % (fr.req.method, fr.reply.steps, fr.req.limit))
    for c in fr.children:
        _bound(c)


def check_mono(case, rec):
    """With enough steps a larger limit changes nothing."""
    w = world(case['costs'], case['revision'], case['balances'])
    sim, roots = model_run(w, case['costs'], case['revision'], case['balances'], case['reqs'])
    outs = []
    for extra in (0, case['cuts'][0][0], 10 ** 9):
        c = dict(case, reqs=[dict(r) for r in case['reqs']])
        for r, root in zip(c['reqs'], roots):
            peaks = [p for f in sim.frames if _root(f) is root for p in f.meter.peaks]
            r['limit'] = max(peaks + [0]) + extra
        w = world(c['costs'], c['revision'], c['balances'])
        rep, res = run_requests(w, [request(r) for r in c['reqs']])
        outs.append([(x.status, x.steps if x.status != 1 else None, x.value if x.status == 0 else None) for x in rep] +
                    [sorted(w.contracts[a].store.items()) for a in w.contracts])
    rec.hits(sim.stats)
    if outs[0] != outs[1] or outs[1] != outs[2]:
        raise Violation('outcome depends on the limit although it is never reached: %r' % (outs,))
    if any(len(f.meter.peaks) >= 3 for f in sim.frames):
        rec.nontrivial(case)


ONE = {'reqs': 2, 'depth': 1, 'size': 14, 'methods': ['run', 'run', 'pay'], 'query': False, 'bad': False,
       'pool_kw': {'size': 2, 'names': ['v'], 'subs': False}}

FACETS = [
    Facet('boundaries', lambda: cases(MIX, **ONE), check, 1200, 70000,
          'some frame ran out of steps; distinct by case'),
    Facet('storage', lambda: cases({'db': 1}, **dict(ONE, depth=0, size=20, reqs=3)), check, 900, 50000,
          'as above'),
    Facet('enough', lambda: cases(MIX, **ONE), check_mono, 150, 8000,
          'some frame was charged at least three times; distinct by case'),
]
