from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..sim import A, B, C, EOA, NOWHERE, compare, model_run, request, run_both, world
from ..model import Sim
from ..kit import SELF, calls, fixed, need, single
from ..node import run_requests

CODES = [0, 1, 2, 31, 32, 33, 100, 931, 932, 966, 967, 968, 969, 999, 1000, 2 ** 31, 2 ** 64, 10 ** 30, -1, -2, -31,
         -32, -33, -2 ** 63, True, False]
ODD_CODES = [None, '5', '-1', 'x', '', b'7', b'\xff', [1], {'a': 1}, '1000', gen.A]
MSGS = ['', 'boom', 'é가\U0001f600', '%s {0}', 'a\nb\x00', 'x' * 5000, None, 5, True, b'raw', ['l'], {'d': 1}, gen.A]


@st.composite
def failing(draw, depth):
    k = draw(st.integers(0, 11))
    if k <= 3:
        form = draw(st.integers(0, 6))
        msg = draw(st.one_of(st.sampled_from(MSGS), gen.texts([0, 1, 300])))
        if form in (0, 2, 4) and not isinstance(msg, (str, int)):
            # the text form of other values is Python's own business
            msg = None
        code = draw(st.one_of(st.sampled_from(CODES), gen.ints(), st.sampled_from(ODD_CODES)))
        return ('revert', form, msg, code)
    if k == 4:
        return draw(gen.raise_op())
    if k == 5:
        return draw(gen.raise_op(['strbad', 'strbad2']))
    if k == 6:
        return draw(gen.bad_result_op())
    if k == 7:
        return draw(st.sampled_from([
            ('vset', ('var', 'v', 'int', []), None), ('dset', ('dict', 'd', 'int', [], 2), ['a'], 1),
            ('diter', ('dict', 'd', 'int', [], 1), []), ('drm', ('dict', 'd', 'int', [], 2), ['a'], 0),
            ('aget', ('arr', 'l', 'int', []), 3, 1), ('aset', ('arr', 'l', 'int', []), -1, 3),
            ('aget', ('arr', 'l', 'int', []), 'x', 0), ('fee', 101), ('fee', -1), ('ev', 'E1', [], {}),
            ('ev', 'E1', ['x'], {}), ('ev', 'E0', [1], {}), ('ev', 'E2', ['a', 'b'], {}), ('icx', B, -1),
            ('sha3', 'text'), ('sha2', None), ('dset', ('dict', 'd', 'int', [], 1), [None], 1)]))
    if k == 8:
        return draw(st.sampled_from([
            ('call', 'gen', B, 0, 'hidden', [], {}), ('call', 'gen', B, 1, 'run', [], {'prog': []}),
            ('call', 'gen', NOWHERE, 0, 'run', [], {}), ('call', 'gen', EOA, 0, 'run', [], {'x': 1}),
            ('call', 'if', B, 0, 'other', [1], {}), ('xfer', C, 10 ** 30), ('xfer', NOWHERE, 1),
            ('call', 'gen', B, 0, '__init__', [], {'prog': []}), ('call', 'if', B, 0, 'nothing', [], {})]))
    if depth > 0:
        sub = draw(program(depth - 1))
        return ('call', draw(st.sampled_from(['if', 'gen'])), draw(st.sampled_from([A, B, C])), 0,
                draw(st.sampled_from(['run', 'run', 'pay', 'ro'])), [], {'prog': sub})
    return draw(gen.raise_op())


@st.composite
def program(draw, depth):
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 3))
        if k == 0:
            ops.append(('vset', ('var', 'v', 'int', []), draw(st.integers(0, 5))))
        elif k == 1:
            ops.append(('inc',))
        else:
            ops.append(('try', [draw(failing(depth))], draw(st.sampled_from(['icon', 'exc', 'all', 'all', 'all']))))
    ops.append(draw(failing(depth)))
    return ops


@st.composite
def cases(draw):
    reqs = []
    for _ in range(draw(st.integers(1, 6))):
        m = draw(st.sampled_from(['run', 'run', 'run', 'run', 'pay', 'ro', 'hidden', 'nosuch', '', '__init__',
                                  'on_install', 'on_update', 'fallback']))
        r = {'to': draw(st.sampled_from([A, B, C])), 'method': m, 'prog': draw(program(draw(st.integers(0, 3)))),
             'value': draw(st.sampled_from([0, 0, 0, 0, 1, 10 ** 18])),
             'limit': draw(st.sampled_from([10 ** 12] * 4 + [0, 20000, 60000]))}
        if draw(st.integers(0, 14)) == 0 and m != 'fallback':
            r['params'] = draw(st.sampled_from([[], [[], 1], [[('inc',)], [], []]]))
        reqs.append(r)
    return {'costs': draw(gen.costs(safe=True)), 'balances': dict(gen.BALANCES), 'reqs': reqs}


def check(case, rec):
    sim, roots, res, w = run_both(case, what=('RESULT',))
    rec.hits(sim.stats)
    if any(r.status for r in roots):
        rec.nontrivial(case)


# -------------------------------------------- failures made by the node side
@st.composite
def foreign(draw):
    replies = draw(st.lists(st.tuples(
        st.one_of(st.integers(1, 40), st.sampled_from([0, 32, 33, 100, 998, 999])),
        st.sampled_from([0, 0, 1, 500]), st.one_of(gen.texts([0, 1, 300]), st.sampled_from(['', 'm']))),
        min_size=1, max_size=4))
    ops = []
    for i in range(len(replies)):
        op = draw(st.sampled_from([('call', 'gen', NOWHERE, 0, 'f', [], {}), ('call', 'if', NOWHERE, 0, 'nothing', [], {}),
                                   ('xfer', NOWHERE, 3), ('send', NOWHERE, 3), ('call', 'gen', EOA, 7, None, [], {})]))
        if i < len(replies) - 1:
            op = ('try', [op], draw(st.sampled_from(['all', 'all', 'icon', 'exc'])))
        ops.append(op)
    for _ in range(draw(st.integers(0, 2))):
        ops = [('call', 'gen', draw(st.sampled_from([A, B])), 0, 'run', [], {'prog': ops})]
    return {'costs': dict(gen.HAVAH), 'replies': replies, 'ops': ops}


def check_foreign(case, rec):
    used = {'node': 0, 'model': 0}

    def answer(side, to, limit):
        if to not in (NOWHERE, EOA):
            return None
        i = used[side] % len(case['replies'])
        used[side] += 1
        st_, steps, v = case['replies'][i]
        return st_, min(steps, limit), v if st_ else None
    w = world(case['costs'])
    w.call_hook = lambda node, f, call: answer('node', call['to'], call['limit'])
    reqs = [{'to': A, 'method': 'run', 'prog': case['ops']}]
    sim = Sim({a: c.owner for a, c in w.contracts.items()}, case['costs'], 0, {}, w.tx)
    sim.hook = lambda f, to, value, limit, m, p: answer('model', to, limit)
    q = request(reqs[0])
    root = sim.invoke(q.to, q.method, list(q.params), q.frm, q.value, q.limit, q.query, q.tx)
    _, res = run_requests(w, [q])
    compare(w, sim, [root], res, ('RESULT', 'CALL'))
    rec.hit('final status %d' % root.status)
    if root.status not in (0, 1):
        rec.nontrivial(case)


# ------------------------------------------- exception classes of contracts
ZOO = '''
from iconservice import *


class Odd(int):
    def __lt__(self, o): return True
    def __gt__(self, o): return True
    def __le__(self, o): return True
    def __ge__(self, o): return True


class Prop(IconScoreException):
    VALUE = 32
    def __init__(self, v):
        super().__init__('prop')
        self.v = v

    @property
    def code(self):
        return self.v


class Attr(IconScoreException):
    code = 0

    def __init__(self, v):
        super().__init__('attr')
        type(self).code = v


class NoInit(IconScoreException):
    def __init__(self, v):
        self.v = v


class Index(IconScoreException):
    def __init__(self, v):
        super().__init__('index', v)


class Sub(Index):
    pass


class Mixed(ValueError, Exception):
    code = 0
    message = 'mixed'


class Plain(Exception):
    def __init__(self, v):
        super().__init__('plain')
        self.code = v


class Main(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    @external
    def hit(self, kind: str, v: int):
        VarDB('v', self.db, int).set(1)
        v = {'odd': Odd(3), 'str': 'abc', 'none': None, 'float': 1.5, 'list': [32], 'bytes': b'a', 'bool': False,
             'big': 10 ** 30}.get(kind.partition(' ')[2], v)
        kind = kind.partition(' ')[0]
        if kind == 'mangled':
            e = IconScoreException('m')
            e._IconServiceBaseException__code = v
            raise e
        if kind == 'instance':
            e = Prop(40)
            e.v = v
            raise e
        raise {'prop': Prop, 'attr': Attr, 'noinit': NoInit, 'index': Index, 'sub': Sub, 'mixed': Mixed, 'plain': Plain}[
            kind](v)

    @external
    def outer(self, kind: str, v: int):
        self.call(self.address, 'hit', {'kind': kind, 'v': v})
'''


@st.composite
def zoo_cases(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from(['hit', 'hit', 'outer']),
        st.sampled_from(['prop', 'attr', 'noinit', 'index', 'sub', 'mixed', 'plain', 'mangled', 'instance', 'prop', 'mangled']),
        st.sampled_from(['', '', '', '', ' odd', ' str', ' none', ' float', ' list', ' bytes', ' bool', ' big']),
        st.one_of(st.sampled_from([-1, 0, 1, 2, 10, 11, 31, 32, 33, 500, 998, 999, 1000, 1031, 2 ** 31]),
                  st.integers(-5, 1100))), min_size=1, max_size=6))


def check_zoo(case, rec):
    w = single(fixed(ZOO), names={'hit': ['kind', 'v'], 'outer': ['kind', 'v']}, readonly=())
    out, _ = calls(w, [(m, [kind + odd, v]) for m, kind, odd, v in case])
    for (m, kind, odd, v), r in zip(case, out):
        what = 'exception %s%s of code or index %s' % (kind, odd, v)
        if kind in ('index', 'sub') and odd == '':
            exp = {min(max(32 + v, 32), 999)}
        elif kind in ('prop', 'attr', 'mangled', 'instance') and odd == '' and 32 <= v <= 999:
            exp = {v}
        elif kind in ('mixed', 'plain', 'noinit'):
            exp = {1}
        else:
            exp = {1} | set(range(32, 1000))
            if kind in ('index', 'sub') and odd not in (' odd', ' bool', ' big'):
                exp.add(6)
        need(r.status in exp, '%s: status %s', what, r.status)
        need(not w.contracts[SELF].store, '%s: state was changed', what)
        rec.hit('%s%s' % (kind, odd))
    rec.nontrivial(case)


FACETS = [
    Facet('raised', cases, check, 1300, 70000, 'some request fails; distinct by case'),
    Facet('foreign', foreign, check_foreign, 500, 30000, 'the request ends with a passed-on status; distinct by case'),
    Facet('classes', zoo_cases, check_zoo, 700, 20000, 'every case; distinct by case'),
]
