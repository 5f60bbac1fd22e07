"""Nested requests: what the node is asked for and what the contract gets."""
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..model import Sim
from ..node import run_requests
from ..sim import A, B, C, EOA, NOWHERE, compare, request, run_both, world
from ..wire import Addr

PEERS = [Addr('cx' + '%02d' % i * 20) for i in (11, 22)] + [NOWHERE, EOA]
STATUS = [0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 32, 33, 999]


@st.composite
def ops(draw, replies):
    k = draw(st.integers(0, 9))
    to = draw(st.sampled_from(PEERS))
    amount = draw(st.sampled_from([0, 0, 1, 5, 127, 128, 10 ** 18, 10 ** 30, 2 ** 255]))
    op = None
    if k <= 2:
        m = draw(st.sampled_from(['other', 'other', 'nothing', 'run']))
        n = {'other': 3, 'nothing': 0, 'run': 1}[m]
        # the interface wrapper passes on whatever it is given
        args = draw(st.lists(gen.typed(2), max_size=n))
        kw = draw(st.dictionaries(st.sampled_from(['a', 'b', 'c', 'prog', '']), gen.typed(1), max_size=2))
        op = ('call', 'if', to, amount, m, args, kw)
    elif k <= 4:
        m = draw(st.one_of(st.sampled_from(['run', 'f', '', 'fallback', None, 'é']), gen.texts([0, 1, 200])))
        kw = draw(st.one_of(st.just({}), st.dictionaries(gen.texts([0, 1, 40]), gen.typed(1), max_size=3)))
        op = ('call', 'gen', to, amount, m, [], kw)
    elif k == 5:
        op = ('callm', draw(st.sampled_from(['if', 'gen'])), to, 'other', draw(st.lists(gen.typed(2), max_size=3)),
              draw(st.dictionaries(st.sampled_from(['a', 'b']), gen.typed(2), max_size=2)))
    elif k == 6:
        op = ('icx', to, draw(st.sampled_from([0, 1, 2, 3, 10 ** 20])))
    elif k == 7:
        op = ('xfer', to, amount)
    elif k == 8:
        op = ('send', to, amount)
    else:
        op = ('vset', ('var', 'v', 'bytes', []), draw(gen.blobs([0, 1, 50])))
    if k <= 7 and draw(st.integers(0, 3)):
        op = ('try', [op], 'all')
    return op


@st.composite
def cases(draw):
    replies = draw(st.lists(st.tuples(st.sampled_from(STATUS), st.sampled_from([0, 0, 1, 320, 10 ** 6]), gen.typed(2),
                                      gen.texts([0, 1, 100])), min_size=1, max_size=5))
    return {'costs': draw(st.sampled_from([gen.HAVAH, gen.ICON0, gen.ICON0B, {}])), 'replies': replies,
            'ops': draw(st.lists(ops(replies), min_size=1, max_size=10)),
            'limit': draw(st.sampled_from([10 ** 12, 10 ** 9, 2 * 10 ** 7]))}


def check(case, rec):
    used = {'node': 0, 'model': 0}

    def answer(side, to, limit):
        if to in (A, B, C):
            return None
        i = used[side] % len(case['replies'])
        used[side] += 1
        status, steps, v, m = case['replies'][i]
        return status, min(steps, limit), m if status else v
    w = world(case['costs'])
    w.call_hook = lambda node, f, call: answer('node', call['to'], call['limit'])
    sim = Sim({a: c.owner for a, c in w.contracts.items()}, case['costs'], 0, {}, w.tx)
    sim.hook = lambda f, to, value, limit, m, p: answer('model', to, limit)
    q = request({'to': A, 'method': 'run', 'prog': case['ops'], 'limit': case['limit']})
    root = sim.invoke(q.to, q.method, list(q.params), q.frm, q.value, q.limit, q.query, q.tx)
    _, res = run_requests(w, [q])
    compare(w, sim, [root], res, ('RESULT', 'CALL'))
    rec.hits(sim.stats)
    n = sum(1 for m in root.msgs if m[0] == 'CALL')
    rec.hit('CALL', n)
    if n >= 2:
        rec.nontrivial(case)


MIX = {'call': 8, 'xfer': 3, 'pend': 3, 'bal': 1, 'try': 1, 'db': 2, 'inc': 1, 'revert': 1, 'ret': 1}


def check_tree(case, rec):
    sim, roots, res, w = run_both(case, what=('RESULT', 'CALL'))
    rec.hits(sim.stats)
    if sim.stats.get('nested', 0) and sim.stats.get('call', 0) >= 2:
        rec.nontrivial(case)


FACETS = [
    Facet('foreign', cases, check, 1100, 60000, 'at least two calls reach the node; distinct by case'),
    Facet('trees', lambda: gen.histories(MIX, reqs=2, depth=3, size=6, bad=False, table=gen.costs(safe=True), pool_kw={
        'size': 2, 'names': ['v'], 'subs': False}), check_tree, 700, 40000,
        'at least two calls, one of them executed by the executor; distinct by case'),
]
