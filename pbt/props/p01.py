"""One reply per request, nothing owed, nothing left behind.

The node the executor talks to checks every message against what it owes and
is owed; on top of that the last request of each history is repeated in a
session of its own on the same state and must be served in the same way."""
import copy

from hypothesis import strategies as st

from .. import gen, interp, scores
from ..core import Facet
from ..kit import CALLER, SELF, fixed, need, show, single
from ..node import GetApi, Invoke, Violation, run_session
from ..sim import A, B, C, CONTRACTS, EOA, NOWHERE, request, world
from . import p02

MIX = {'db': 10, 'call': 6, 'try': 3, 'ev': 2, 'fee': 1, 'inc': 2, 'revert': 2, 'raise': 3, 'ret': 1, 'badret': 1, 'pend': 1,
       'xfer': 1, 'bal': 1, 'hash': 1, 'log': 1, 'ctx': 1}

BROKEN = [(None, {}), ('from iconservice import *\nraise SystemExit\n', {}), ('x = (', {}),
          ('from iconservice import *\nclass Main(IconScoreBase):\n    def __init__(self, db):\n        super().__init__(db)\n'
           '        self.icx.get_balance(self.address)\n    def on_install(self): pass\n    def on_update(self): pass\n'
           '    @external\n    def f(self): pass\n', {}),
          ('from iconservice import *\nclass Main(IconScoreBase):\n    def __init__(self, db):\n        super().__init__(db)\n'
           '        VarDB("a", db, int).set(1)\n    def on_install(self): pass\n    def on_update(self): pass\n'
           '    @external\n    def f(self): pass\n', {}),
          ('from iconservice import *\nclass Main(IconScoreBase):\n    def __init__(self, db):\n        super().__init__(db)\n'
           '        self.E()\n    def on_install(self): pass\n    def on_update(self): pass\n    @eventlog\n    def E(self): pass\n'
           '    @external\n    def f(self): pass\n', {}),
          ('from iconservice import *\nclass Main(IconScoreBase):\n    def __init__(self, db):\n        super().__init__(db)\n'
           '        self.call(self.address, "f", {})\n    def on_install(self): pass\n    def on_update(self): pass\n'
           '    @external\n    def f(self): pass\n', {}),
          ('from iconservice import *\nprint(sha3_256(b""))\nclass Main(IconScoreBase):\n    def __init__(self, db):\n'
           '        super().__init__(db)\n    def on_install(self): pass\n    def on_update(self): pass\n'
           '    @external\n    def f(self): pass\n', {})]
_broken = []


def broken():
    if not _broken:
        for src, kw in BROKEN:
            _broken.append(scores.package(src, **kw) if src else scores.root() + '/absent')
    return _broken


@st.composite
def plan(draw, pool, depth=1):
    """What the node does about a call: API requests and executions, then the
    answer."""
    out = []
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.booleans()):
            out.append(('api', draw(st.integers(-2, len(BROKEN) - 1))))
        else:
            out.append(('inv', draw(st.sampled_from(CONTRACTS)), draw(st.sampled_from(['run', 'on_install', 'on_update', 'ro'])),
                        draw(gen.program(pool, MIX, 0, 4))))
    if out and draw(st.booleans()):
        return out
    status = draw(st.sampled_from([0, 0, 0, 1, 2, 5, 6, 9, 10, 11, 12, 32, 40, 999]))
    return out + [('res', status, draw(st.sampled_from([0, 1, 100, 50000])), draw(gen.typed(1)) if not status else
                   draw(st.sampled_from(['', 'text', '\uac00'])))]


@st.composite
def cases(draw):
    c = draw(gen.histories(MIX, reqs=4, depth=2, size=7))
    pool = draw(gen.pools())
    c['plans'] = {i: draw(plan(pool)) for i in draw(st.lists(st.integers(0, 4), max_size=2, unique=True))}
    for r in c['reqs']:
        r['share'] = draw(st.one_of(st.none(), st.integers(0, 100), st.sampled_from([0, 1, 50, 98, 99, 100])))
    c['apis'] = draw(st.lists(st.integers(-2, len(BROKEN) - 1), max_size=len(c['reqs'])))
    c['level'] = draw(st.sampled_from([None, None, None, 'trace', 'error']))
    return c


def api(i):
    return GetApi(broken()[i]) if i >= 0 else GetApi(world({}).contracts[A if i == -1 else B].code)


def frames(f):
    return [f.req.__class__.__name__, f.msgs, f.reply.status, f.reply.api, [frames(x) for x in f.children]]


def state(w):
    return {a: dict(c.store) for a, c in w.contracts.items()}, dict(w.balances)


def session(case, reqs, start=None, **kw):
    """Runs reqs; returns (frames of the last one, state before it, all roots)."""
    w = world(case['costs'], case['revision'], case['balances'])
    if start:
        for a, s in start[0].items():
            w.contracts[a].store = dict(s)
        w.balances = dict(start[1])
    turn = [None, 0]

    def hook(node, f, call):
        if turn[0] != len(node.roots):
            turn[:] = [len(node.roots), 0]
        i = turn[1]
        turn[1] += 1
        p = case['plans'].get(i)
        if p is None or f.depth > 2:
            return None
        out = []
        for x in p:
            if x[0] == 'api':
                out.append(api(x[1]))
            elif x[0] == 'inv':
                out.append(Invoke(x[1], x[2], [x[3]], frm=f.req.to, limit=call['limit'], query=f.req.query or x[2] == 'ro'))
            else:
                out.append((x[1], min(x[2], call['limit']), x[3]))
        return out
    w.call_hook = hook
    before = []

    def script():
        for q in reqs:
            before.append(state(w))
            yield q
    if case.get('level'):
        kw['log_level'] = case['level']
    res = run_session(w, script(), **kw)
    need(len(res.roots) == len(reqs), '%d of %d requests were served', len(res.roots), len(reqs))
    return frames(res.roots[-1]), before[-1], res.roots


def count(f, rec):
    for m in f.msgs:
        if m[0] == 'SETVALUE' and m[2] & 2:
            rec.hit('acknowledgements owed')
    if isinstance(f.req, GetApi):
        rec.hit('nested API requests' if f.parent else 'API requests')
    else:
        rec.hit('status %d' % f.reply.status)
        if f.reply.status == 10 and f.parent is None:
            rec.hit('out of steps')
    for x in f.children:
        count(x, rec)


def check(case, rec):
    first = [request(r) for r in case['reqs']]
    roots = session(case, first)[2]
    reqs = []
    for i, (r, f) in enumerate(zip(case['reqs'], roots)):
        if i < len(case['apis']):
            reqs.append(api(case['apis'][i]))
        q = dict(r)
        if r['share'] is not None:
            q['limit'] = f.reply.steps * r['share'] // 100
        reqs.append(request(q))
    last, before, roots = session(case, reqs)
    alone, _, _ = session(case, reqs[-1:], before)
    a, b = show(alone), show(last)
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
        raise Violation('the last request is served differently after the others: ...%s instead of ...%s' % (
            b[max(0, i - 100):i + 200], a[max(0, i - 100):i + 200]))
    for f in roots:
        count(f, rec)
    if any(f.reply.status for f in roots):
        rec.nontrivial(case)


# ------------------------------------------------------------ own contract
def probe(case_reqs, rec, source, costs=None, level=None):
    """Requests of one contract; the last one again in a session of its own."""
    def go(reqs, start=None):
        w = single(fixed(source), costs or dict(gen.HAVAH), names={'take': ['v'], 'deep': ['n', 'm', 'op'], 'count': []},
                   balances={SELF: 1000})
        if start is not None:
            w.contracts[SELF].store = dict(start)
        before = []

        def script():
            for m, p, kw in reqs:
                before.append(dict(w.contracts[SELF].store))
                yield Invoke(SELF, m, p, frm=CALLER, **kw)
        res = run_session(w, script(), **({'log_level': level} if level else {}))
        need(len(res.roots) == len(reqs), 'not all requests were served')
        return frames(res.roots[-1]), before[-1], res.roots
    last, before, roots = go(case_reqs)
    alone, _, _ = go(case_reqs[-1:], before)
    a, b = show(alone), show(last)
    need(a == b, 'the last request is served differently after the others: %s instead of %s', b[:500], a[:500])
    for f in roots:
        count(f, rec)


# ----------------------------------------------- the end of the stack
@st.composite
def deep_cases(draw):
    return {'reqs': draw(st.lists(st.tuples(st.one_of(st.integers(800, 990), st.integers(900, 985)), st.integers(0, 2),
                                            st.one_of(p02.bottom(), st.tuples(st.just('many'), st.integers(1, 70),
                                                                              p02.bottom()))), min_size=1, max_size=8)),
            'limits': draw(st.lists(st.sampled_from([10 ** 12, 10 ** 12, 10 ** 12, 30000, 150000]), min_size=8, max_size=8)),
            'level': draw(st.sampled_from([None, None, 'trace']))}


PROBE = ('run', [[('set', 'str', 'none'), ('call', 'int', 'none'), ('ev', 'x', 'none')]], {})


def check_deep(case, rec):
    reqs = [('deep', list(r), {'limit': l}) for r, l in zip(case['reqs'], case['limits'])]
    probe(reqs + [PROBE], rec, p02.SRC, level=case['level'])
    for q in case['reqs']:
        rec.nontrivial(q)


# ------------------------------------------------- objects with a will of their own
HOSTILE = '''
from iconservice import *


class Boom(Exception):
    pass


class Base0(BaseException):
    pass


class NoInit(IconScoreException):
    def __init__(self):
        pass


class BadStr(ValueError):
    def __str__(self):
        raise Base0()
    __repr__ = __str__


class Meta(type):
    def __repr__(cls):
        raise Boom()
    __str__ = __repr__
    def __instancecheck__(cls, x):
        raise Boom()


class WithMeta(BaseException, metaclass=Meta):
    pass


class Peer(InterfaceScore):
    @interface
    def take(self, v): pass
    @interface
    def count(self): pass


def act(what):
    me = Main.me
    if what == 'write':
        VarDB('n', me.db, int).set(7)
    elif what == 'read':
        VarDB('n', me.db, int).get()
    elif what == 'event':
        me.Printed('p')
    elif what == 'call':
        if Main.left > 0:
            Main.left -= 1
            me.call(me.address, 'count', {})
    elif what == 'balance':
        me.icx.get_balance(me.address)
    elif what == 'fail':
        raise Boom('x')
    elif what == 'base':
        raise Base0('x')
    elif what == 'exit':
        raise SystemExit(3)
    elif what == 'stop':
        raise StopIteration()
    elif what == 'memory':
        raise MemoryError()
    elif what == 'revert':
        revert('x', 5)
    elif what == 'badstr':
        raise BadStr()
    elif what == 'noinit':
        raise NoInit()
    elif what == 'meta':
        raise WithMeta()
    elif what == 'deep':
        act('deep')
    elif what == 'steps':
        while True:
            sha3_256(b'x' * 1000)


def noisy(base, what, methods, wrong):
    d = {}
    for m in methods:
        if not hasattr(base, m) and m not in ('__deepcopy__', '__copy__', '__bool__', '__len__', '__iter__', '__int__',
                                              '__index__', '__call__', '__fspath__', '__contains__', '__bytes__'):
            continue
        def f(self, *a, m=m):
            act(what)
            if wrong is not None:
                return wrong
            return getattr(base, m)(self, *a)
        f.__name__ = m
        d[m] = f
    return type('Noisy' + ('\\udc80' if what == 'write' else ''), (base,), d)


class Plain:
    pass


class Stop(BaseException):
    pass


class Main(IconScoreBase):
    me = None
    left = 3

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        Main.me = self
        Main.left = 3

    def on_install(self): pass
    def on_update(self): pass

    @eventlog
    def Printed(self, a: str): pass

    @eventlog(indexed=1)
    def Ev(self, a: str, b: int, c: bytes, d: Address, e: bool): pass

    @external
    def count(self):
        v = VarDB('c', self.db, int)
        v.set(v.get() + 1)

    @external
    def take(self, v: str):
        return 5

    @external
    def probe(self):
        VarDB('p', self.db, int).set(VarDB('p', self.db, int).get() + 1)
        self.Printed('probe')
        self.call(self.address, 'count', {})
        return [VarDB('c', self.db, int).get(), self.icx.get_balance(self.address)]

    def obj(self, kind, what, methods, wrong):
        n = lambda base: noisy(base, what, methods, wrong)
        if kind == 'str':
            return n(str)('text')
        if kind == 'int':
            return n(int)(3)
        if kind == 'bytes':
            return n(bytes)(b'abc')
        if kind == 'bool':
            return True
        if kind == 'list':
            return n(list)([1, 'a'])
        if kind == 'tuple':
            return n(tuple)((1, 2))
        if kind == 'dict':
            return n(dict)({'v': 1})
        if kind == 'dictk':
            return {n(str)('v'): n(int)(1)}
        if kind == 'address':
            return n(Address)(self.address.prefix, self.address.body)
        if kind == 'exc':
            return n(ValueError)('exc')
        if kind == 'icon':
            return n(IconScoreException)('icon', 3)
        if kind == 'icons':
            return IconScoreException(n(str)('icon'), n(int)(3))
        if kind == 'cycle':
            x = [1]
            x.append(x)
            return x
        if kind == 'deeplist':
            x = []
            for i in range(990):
                x = [x]
            return x
        if kind == 'surr':
            return '\\udc80'
        if kind == 'float':
            return 1.5
        if kind == 'big':
            return 10 ** 6000
        if kind == 'class':
            return n(Plain)
        return n(Plain)()

    def use(self, how, x):
        me = self.address
        if how == 'vset':
            VarDB('x', self.db, type(x).__mro__[1]).set(x)
        elif how == 'vsets':
            VarDB('x', self.db, str).set(x)
        elif how == 'vsetb':
            VarDB('x', self.db, bytes).set(x)
        elif how == 'vseti':
            VarDB('x', self.db, int).set(x)
        elif how == 'vseta':
            VarDB('x', self.db, Address).set(x)
        elif how == 'vkey':
            VarDB(x, self.db, int).set(3)
        elif how == 'vtype':
            VarDB('x', self.db, x).get()
        elif how == 'dkey':
            d = DictDB('d', self.db, int)
            d[x] = 5
            return [d[x], x in d]
        elif how == 'dval':
            DictDB('d', self.db, bytes)['k'] = x
        elif how == 'drem':
            DictDB('d', self.db, int, depth=2)[x].remove(x)
        elif how == 'ddel':
            d = DictDB('d', self.db, int)
            d[x] = 1
            del d[x]
        elif how == 'aput':
            ArrayDB('a', self.db, bytes).put(x)
        elif how == 'aset':
            a = ArrayDB('a', self.db, int)
            a.put(1)
            a.put(2)
            a[x] = 4
        elif how == 'aget':
            a = ArrayDB('a', self.db, int)
            for i in range(5):
                a.put(i)
            return a[x]
        elif how == 'ain':
            a = ArrayDB('a', self.db, str)
            a.put('q')
            a.put('text')
            return x in a
        elif how == 'sub':
            VarDB('x', self.db.get_sub_db(x), int).set(1)
        elif how == 'callto':
            return self.call(x, 'count', {})
        elif how == 'callm':
            return self.call(me, x, {'v': 1})
        elif how == 'callp':
            return self.call(me, 'take', x)
        elif how == 'callv':
            return self.call(me, 'take', {'v': x})
        elif how == 'calla':
            return self.call(me, 'take', {'v': 1}, x)
        elif how == 'if':
            return self.create_interface_score(me, Peer).take(x)
        elif how == 'ifa':
            return self.create_interface_score(x, Peer).count()
        elif how == 'ifc':
            return self.create_interface_score(me, x)
        elif how == 'icx':
            return self.create_interface_score(me, Peer).icx(x).count()
        elif how == 'xferto':
            return self.icx.transfer(x, 0)
        elif how == 'xfer':
            return self.icx.transfer(me, x)
        elif how == 'send':
            return self.icx.send(x, x)
        elif how == 'bal':
            return self.icx.get_balance(x)
        elif how == 'eva':
            self.Ev(x, 1, b'', me, True)
        elif how == 'evb':
            self.Ev('a', x, b'', me, True)
        elif how == 'evc':
            self.Ev('a', 1, x, me, True)
        elif how == 'evd':
            self.Ev('a', 1, b'', x, True)
        elif how == 'eve':
            self.Ev('a', 1, b'', me, x)
        elif how == 'evk':
            self.Ev(**x)
        elif how == 'ret':
            return [x]
        elif how == 'sha':
            return sha3_256(x)
        elif how == 'sha2':
            return sha_256(x)
        elif how == 'jd':
            return json_dumps(x)
        elif how == 'jl':
            return json_loads(x)
        elif how == 'rec':
            return recover_key(b'1' * 32, x)
        elif how == 'recm':
            return recover_key(x, b'1' * 65)
        elif how == 'cak':
            return create_address_with_key(x)
        elif how == 'fee':
            self.set_fee_sharing_proportion(x)
        elif how == 'owner':
            return self.get_owner(x)
        elif how == 'addr':
            return Address.from_string(x)
        elif how == 'addrb':
            return Address.from_bytes(x)
        elif how == 'addrn':
            return Address(AddressPrefix.CONTRACT, x)
        elif how == 'addrp':
            return str(Address(x, b'1' * 20))
        elif how == 'revm':
            revert(x, 3)
        elif how == 'revc':
            revert('x', x)
        elif how == 'raise':
            raise x
        elif how == 'raiseclass':
            raise type(x)
        elif how == 'raiseex':
            raise ValueError(x)
        elif how == 'raisefrom':
            raise ValueError('a') from x
        elif how == 'log':
            Logger.info(x, x)
        elif how == 'db':
            return [self.db.get(x), self.db.put(x, b'1')]
        elif how == 'dbv':
            self.db.put(b'k', x)
        elif how == 'attr':
            setattr(self, 'anything', x)
        elif how == 'sender':
            return self.msg.sender == x

    @external
    def run(self, ops: str):
        out = []
        for how, kind, what, methods, wrong, catch in ops:
            VarDB('owed', self.db, int).set(5)
            if catch:
                try:
                    out.append(self.use(how, self.obj(kind, what, methods, wrong)))
                except BaseException:
                    out.append(-1)
            else:
                out.append(self.use(how, self.obj(kind, what, methods, wrong)))
        return out
'''
METHODS = ['__len__', '__str__', '__repr__', '__format__', '__hash__', '__eq__', '__ne__', '__lt__', '__gt__', '__le__',
           '__ge__', '__bool__', '__int__', '__index__', '__iter__', '__getitem__', '__contains__', '__deepcopy__',
           '__copy__', '__reduce_ex__', '__reduce__', '__bytes__', '__add__', '__radd__', '__getattribute__', 'encode',
           'decode', 'to_bytes', 'bit_length', 'items', 'keys', 'values', 'get', 'startswith', 'hex', 'split', 'code',
           'message', 'prefix', 'body', 'is_contract', 'to_body', '__init__', '__class__', '__call__', '__mod__', '__or__',
           '__and__', '__neg__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lshift__', 'ljust', '__getstate__']
USES = ['vset', 'vsets', 'vsetb', 'vseti', 'vseta', 'vkey', 'vtype', 'dkey', 'dval', 'drem', 'ddel', 'aput', 'aset', 'aget',
        'ain', 'sub', 'callto', 'callm', 'callp', 'callv', 'calla', 'if', 'ifa', 'ifc', 'icx', 'xferto', 'xfer', 'send', 'bal',
        'eva', 'evb', 'evc', 'evd', 'eve', 'evk', 'ret', 'sha', 'sha2', 'jd', 'jl', 'rec', 'recm', 'cak', 'fee', 'owner',
        'addr', 'addrb', 'addrn', 'addrp', 'revm', 'revc', 'raise', 'raiseclass', 'raiseex', 'raisefrom', 'log', 'db', 'dbv',
        'attr', 'sender']
KINDS = ['str', 'int', 'bytes', 'bool', 'list', 'tuple', 'dict', 'dictk', 'address', 'exc', 'icon', 'icons', 'cycle',
         'deeplist', 'surr', 'float', 'big', 'class', 'object']
ACTS = ['none', 'write', 'read', 'event', 'call', 'balance', 'fail', 'base', 'exit', 'stop', 'memory', 'revert', 'badstr',
        'noinit', 'meta', 'deep', 'steps']
# the kinds that fit a use, so that it gets as far as possible
FIT = {'vset': ['str', 'int', 'bytes', 'address'], 'vsets': ['str'], 'vsetb': ['bytes'], 'vseti': ['int'],
       'vseta': ['address'], 'vkey': ['str', 'bytes', 'int', 'address'], 'dkey': ['str', 'bytes', 'int', 'address'],
       'dval': ['bytes'], 'drem': ['str', 'bytes', 'int', 'address'], 'ddel': ['str', 'bytes', 'int', 'address'],
       'aput': ['bytes'], 'aset': ['int', 'bool'], 'aget': ['int'], 'ain': ['str'], 'sub': ['bytes'], 'callto': ['address'],
       'callm': ['str'], 'callp': ['dict', 'dictk'], 'callv': KINDS, 'calla': ['int'], 'if': KINDS, 'ifa': ['address'],
       'icx': ['int'], 'xferto': ['address'], 'xfer': ['int'], 'bal': ['address'], 'eva': ['str', 'surr'], 'evb': ['int', 'big'],
       'evc': ['bytes'], 'evd': ['address'], 'eve': ['bool', 'int'], 'evk': ['dict', 'dictk'], 'ret': KINDS, 'sha': ['bytes'],
       'sha2': ['bytes'], 'jd': KINDS, 'jl': ['str', 'surr'], 'rec': ['bytes'], 'recm': ['bytes'], 'cak': ['bytes'],
       'fee': ['int', 'bool'], 'owner': ['address'], 'addr': ['str'], 'addrb': ['bytes'], 'addrn': ['bytes'],
       'revm': ['str', 'surr', 'int'], 'revc': ['int', 'bool', 'big'], 'raise': ['exc', 'icon', 'icons', 'class'],
       'raiseclass': ['exc', 'icon', 'object'], 'log': ['str', 'surr'], 'db': ['bytes'], 'dbv': ['bytes']}


@st.composite
def hostile_op(draw):
    how = draw(st.sampled_from(USES))
    kind = draw(st.sampled_from(FIT.get(how, KINDS) if draw(st.integers(0, 5)) else KINDS))
    methods = draw(st.one_of(st.lists(st.sampled_from(METHODS), min_size=1, max_size=3, unique=True),
                             st.just(METHODS[:30]),
                             st.lists(st.sampled_from(METHODS[:16] + METHODS[25:36]), min_size=1, max_size=2, unique=True)))
    wrong = draw(st.sampled_from([None, None, None, None, 0, -1, 'x', b'', 10 ** 30, True, [], ()]))
    return (how, kind, draw(st.sampled_from(ACTS)), methods, wrong, draw(st.booleans()))


@st.composite
def hostile_cases(draw):
    return {'reqs': draw(st.lists(st.lists(hostile_op(), min_size=1, max_size=4), min_size=1, max_size=3)),
            'limit': draw(st.sampled_from([10 ** 7, 10 ** 7, 10 ** 6, 60000])),
            'level': draw(st.sampled_from([None, None, 'trace', 'error']))}


def check_hostile(case, rec):
    probe([('run', [ops], {'limit': case['limit']}) for ops in case['reqs']] + [('probe', [], {})], rec, HOSTILE,
          level=case['level'])
    for ops in case['reqs']:
        for op in ops:
            rec.nontrivial(op)
            rec.hit('%s' % op[0])


FACETS = [
    Facet('histories', cases, check, 600, 40000, 'some request fails; distinct by case'),
    Facet('deep', deep_cases, check_deep, 250, 15000, 'every operation at the end of a deep recursion'),
    Facet('hostile', hostile_cases, check_hostile, 1400, 90000, 'every use of a hostile object; distinct by use, object, action'),
]
