from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..sim import run_both
from ..wire import Addr

MIX = {'ctx': 6, 'call': 6, 'try': 2, 'db': 2, 'fee': 1, 'getfee': 2, 'inc': 1, 'ev': 1, 'revert': 1, 'raise': 1,
       'hash': 1}


@st.composite
def tx_info(draw):
    t = {}
    for k, s in (('B.timestamp', st.integers(0, 2 ** 62)), ('B.height', st.integers(0, 2 ** 60)),
                 ('T.hash', st.binary(min_size=32, max_size=32)), ('T.index', st.integers(0, 300)),
                 ('T.from', st.one_of(gen.addrs(), st.none())), ('T.timestamp', st.integers(0, 2 ** 62)),
                 ('T.nonce', st.one_of(st.none(), gen.ints()))):
        if draw(st.booleans()):
            t[k] = draw(s)
    return t


@st.composite
def cases(draw, **kw):
    c = draw(gen.histories(MIX, **kw))
    for r in c['reqs']:
        r['tx'] = draw(tx_info())
        r['frm'] = draw(gen.addrs())
        r['prog'] = r['prog'] + [('ctx',), ('getfee',)]
        if draw(st.integers(0, 9)) == 0 and r['method'] == 'run':
            # system-originated execution
            r['frm'] = None
    return c


def check(case, rec):
    sim, roots, res, w = run_both(case)
    rec.hits(sim.stats)
    if sim.stats.get('op ctx', 0) >= 2 and sim.stats.get('nested', 0):
        rec.nontrivial(case)


FACETS = [
    Facet('trees', lambda: cases(reqs=3, depth=3, size=6, bad=False, pool_kw={'size': 2, 'names': ['v'],
                                                                                'subs': False}),
          check, 1300, 60000, 'at least two context dumps and a nested execution; distinct by case'),
]
