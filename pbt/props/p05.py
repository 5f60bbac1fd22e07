"""Slots: derivation, separation and locality."""
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..model import slot
from ..node import Violation
from ..sim import A, B, C, run_both, where
from ..wire import int_bytes


def check(case, rec):
    sim, roots, res, w = run_both(case, what=('RESULT',))
    rec.hits(sim.stats)
    if len(set(k for a in sim.store for k in sim.store[a])) >= 2:
        rec.nontrivial(case)


@st.composite
def entry(draw):
    kind = draw(st.sampled_from(['var', 'dict', 'dict', 'arr']))
    name = draw(st.sampled_from(gen.CNAMES + ['a', 'ab', 'b', '\x02', '\x81a', '\x80', 'a' * 54, 'a' * 55, 'a' * 57,
                                              'a' * 255, 'a' * 257]))
    subs = draw(st.sampled_from([[], [], [], [b'a'], [b''], [b'b', b'a']]))
    if kind == 'var':
        return ('vset', ('var', name, 'int', subs), 5), [slot('var', name, (), subs)]
    if kind == 'arr':
        return ('aput', ('arr', name, 'int', subs), 5), [slot('arr', name, (), subs), slot('arr', name, [0], subs)]
    d = draw(st.integers(1, 3))
    keys = [draw(st.one_of(gen.keys(), st.sampled_from(['', 'a', 'ab', 'b', 'a' * 55, 'a' * 56]))) for _ in range(d)]
    return ('dset', ('dict', name, 'int', subs, d), keys, 5), [slot('dict', name, keys, subs)]


def pairs():
    return st.lists(entry(), min_size=2, max_size=8)


def check_sep(case, rec):
    """Every entry written from empty storage touches exactly its slots."""
    reqs = []
    want = []
    for op, slots in case:
        for o in (op, READ[op[0]](op)):
            reqs.append({'to': A, 'method': 'run', 'prog': [o]})
            want.append(slots)
    sim, roots, res, w = run_both({'costs': {}, 'reqs': reqs}, what=('RESULT',))
    seen = {}
    for r, slots, (op, _) in zip(res.roots, want, [x for x in case for _ in (0, 1)]):
        ident = repr(op[1:3] if op[0] == 'dset' else op[1])
        for m in r.msgs:
            if m[0] in ('GETVALUE', 'SETVALUE') and m[1] not in slots and op[0] != 'aput':
                raise Violation('%r touches slot %s which is not its own' % (op, m[1].hex()))
            if m[0] == 'SETVALUE' and op[0] != 'aput':
                seen.setdefault(m[1], set()).add(ident)
    rec.hit('entries', len(case))
    if len({tuple(s) for _, s in case}) >= 2:
        rec.nontrivial(sorted({repr(op) for op, _ in case}))


READ = {'vset': lambda o: ('vget', o[1]), 'dset': lambda o: ('dget', o[1], o[2]), 'aput': lambda o: ('alen', o[1])}

FACETS = [
    Facet('derivation', lambda: gen.histories({'db': 1}, reqs=3, depth=0, size=10, key=gen.keys(), methods=['run'],
                                              query=False, bad=False), check, 900, 50000,
          'the final state has at least two slots; distinct by case'),
    Facet('separation', pairs, check_sep, 1200, 60000,
          'at least two entries with different expected slots; distinct by set of entries'),
]
