from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..sim import run_both

MIX = {'fee': 6, 'getfee': 4, 'call': 5, 'try': 2, 'db': 1, 'inc': 1, 'revert': 1, 'raise': 1}


def check(case, rec):
    sim, roots, res, w = run_both(case, what=('SETFEEPCT', 'RESULT', 'CALL'))
    rec.hits(sim.stats)
    n = sum(1 for f in sim.frames for m in f.msgs if m[0] == 'SETFEEPCT')
    rec.hit('SETFEEPCT', n)
    if n:
        rec.nontrivial(case)


FACETS = [
    Facet('frames', lambda: gen.histories(MIX, reqs=3, depth=3, size=6, bad=False, pool_kw={
        'size': 1, 'names': ['v'], 'subs': False}), check, 1500, 60000,
        'the model expects at least one fee message; distinct by case'),
]
