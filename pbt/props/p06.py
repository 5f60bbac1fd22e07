"""The node stand-in itself rejects writes, events and fee requests from
read-only frames; the model tells what the contract must observe."""
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..sim import run_both

MIX = {'db': 6, 'ev': 3, 'fee': 2, 'getfee': 1, 'call': 5, 'try': 2, 'inc': 1, 'xfer': 1}


def check(case, rec):
    sim, roots, res, w = run_both(case)
    rec.hits(sim.stats)
    refused = sum(sim.stats.get(x, 0) for x in ('write refused', 'event refused', 'fee refused'))
    done = any(f.writes for f in sim.frames if not f.readonly)
    if refused and done:
        rec.hit('refused and written')
    if refused:
        rec.nontrivial(case)


FACETS = [
    Facet('trees', lambda: gen.histories(MIX, reqs=3, depth=3, size=6, bad=False, methods=['run', 'run', 'pay', 'ro'],
                                         pool_kw={'size': 3, 'names': ['v', 'w'], 'subs': False}), check, 1100, 60000,
          'a write, event or fee request was attempted in a read-only frame; distinct by case'),
    Facet('query', lambda: gen.histories(MIX, reqs=2, depth=2, size=8, bad=False, methods=['ro', 'ro', 'run'],
                                         pool_kw={'size': 2, 'names': ['v'], 'subs': False}), check, 500, 30000,
          'as above'),
]
