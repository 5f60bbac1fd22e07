from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..sim import run_both

KW = {'targets': None}


def check(case, rec):
    sim, roots, res, w = run_both(case, what=('RESULT',))
    rec.hits(sim.stats)
    n = sum(v for k, v in sim.stats.items() if k.startswith('op ') and k != 'op try')
    if n >= 6 and sum(1 for r in roots if r.status == 0) >= 1 and any(sim.store[a] for a in sim.store):
        rec.nontrivial(case)




def retyped_value(t):
    """Entries that other types may or may not be able to read."""
    return {'int': st.one_of(gen.ints(), st.sampled_from([0, 1, -1, 2, 0xc3a9, -15424])),
            'str': st.one_of(gen.texts(), st.sampled_from(['', '\0', '\x01', 'a' * 20, '\0' + 'b' * 20, '\x01' + 'c' * 20,
                                                           '\x02' + 'd' * 20, '\u00e9'])),
            'bytes': st.one_of(gen.blobs(), st.sampled_from([
                b'', b'\0', b'\x01', b'\xff', b'\xc3\xa9', b'a\xc3', b'\xed\xa0\x80', b'\xffab', b'a' * 19, b'a' * 20, b'\0' * 21,
                b'\x01' + b'\xff' * 20, b'\x02' + b'z' * 20, b'a' * 22])),
            'bool': st.booleans(), 'Address': gen.addrs()}[t]

FACETS = [
    Facet('one', lambda: gen.histories({'db': 1}, reqs=5, depth=0, size=12, pool_kw={'size': 3}, query=False,
                                       methods=['run', 'run', 'run', 'run', 'ro']), check, 900, 60000,
          'at least 6 container operations, a successful request and a non-empty final state; distinct by case'),
    Facet('arrays', lambda: gen.histories({'db': 1}, reqs=4, depth=0, size=25, pool_kw={'size': 2, 'kinds': ['arr'],
                                          'names': ['v', 'w']}, methods=['run'], query=False), check, 500, 30000,
          'as above'),
    Facet('retyped', lambda: gen.histories({'db': 1}, reqs=3, depth=0, size=14, pool_kw={
        'size': 2, 'retyped': True, 'names': ['v'], 'subs': False}, methods=['run'], query=False, value=retyped_value),
        check, 400, 20000, 'as above; every place is used with several types'),
    Facet('many', lambda: gen.histories({'db': 12, 'call': 2, 'revert': 1, 'raise': 1, 'try': 2}, reqs=5, depth=1,
                                        size=10, pool_kw={'size': 4, 'names': ['v', 'w', 'vw']}), check, 700, 40000,
          'as above'),
]
