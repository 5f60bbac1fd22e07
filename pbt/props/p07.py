from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..sim import run_both

MIX = {'db': 10, 'try': 2, 'call': 2, 'ev': 2, 'hash': 1, 'xfer': 1, 'pend': 1, 'json': 1, 'ret': 1, 'revert': 1}


def check(case, rec):
    sim, roots, res, w = run_both(case, what=('RESULT',), store=False)
    rec.hits(sim.stats)
    if any(len(f.meter.charges) >= 3 for f in sim.frames):
        rec.nontrivial(case)


FACETS = [
    Facet('histories', lambda: gen.histories(MIX), check, 1500, 60000,
          'some frame was charged at least three times; distinct by case'),
    Facet('storage', lambda: gen.histories({'db': 1}, reqs=2, size=25, depth=0, pool_kw={'size': 2}), check, 1500, 60000,
          'some frame was charged at least three times; distinct by case'),
]
