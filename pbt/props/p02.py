"""The same input gives the same output: fragmentation, log levels, processes."""
import atexit
import hashlib
import json
import importlib
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from .. import classgen as cg
from .. import gen, scores
from ..core import Facet, Rec, from_literal, literal
from ..kit import CALLER, SELF, calls, fixed, need, show, single
from .. import node
from ..node import GetApi, Invoke, Violation, run_requests
from ..sim import A, request, world
from . import p13

MIX = {'db': 8, 'call': 5, 'try': 2, 'ev': 3, 'fee': 1, 'getfee': 1, 'inc': 1, 'revert': 1, 'raise': 2, 'ret': 2,
       'ctx': 1, 'log': 3, 'hash': 1, 'json': 1, 'xfer': 1, 'bal': 1, 'pend': 1, 'badret': 1}
LEVELS = ['panic', 'fatal', 'error', 'warn', 'info', 'debug', 'trace', '-v']


@st.composite
def histories(draw, **kw):
    c = draw(gen.histories(MIX, **dict({'reqs': 3, 'depth': 2, 'size': 7}, **kw)))
    for r in c['reqs']:
        if draw(st.integers(0, 5)) == 0:
            r['limit'] = draw(st.sampled_from([0, 100, 5000, 30000, 60000]))
    c['api'] = draw(st.lists(st.booleans(), min_size=len(c['reqs']), max_size=len(c['reqs'])))
    return c


def session(case, **kw):
    """Everything the executor wrote, logs apart, and the final state."""
    w = world(case['costs'], case['revision'], case['balances'])
    reqs = []
    for r, api in zip(case['reqs'], case['api']):
        if api:
            reqs.append(GetApi(w.contracts[r['to']].code))
        reqs.append(request(r))
    out, res = run_requests(w, reqs, **kw)
    state = [sorted(w.contracts[a].store.items()) for a in sorted(w.contracts, key=str)]
    return res, [show(res.transcript), show([r.api for r in out]), show(state)]


def differ(a, b, what):
    for x, y in zip(a, b):
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            raise Violation('%s: ...%s instead of ...%s' % (what, y[max(0, i - 80):i + 150], x[max(0, i - 80):i + 150]))


# ---------------------------------------------------------------- chunks
CHUNK = st.one_of(st.sampled_from([1, 1, 2, 3, 4, 7, 100, 65536, 1 << 20]), st.integers(1, 40))


@st.composite
def chunk_cases(draw):
    c = draw(histories())
    c['chunks'] = draw(st.lists(CHUNK, min_size=1, max_size=12))
    c['level'] = draw(st.sampled_from([None, None, 'error', 'trace']))
    return c


def check_chunks(case, rec):
    kw = {'log_level': case['level']} if case['level'] else {}
    r1, a = session(case, **kw)
    r2, b = session(case, chunks=case['chunks'], **kw)
    differ(a, b, 'messages depend on how the input is cut (%s)' % case['chunks'])
    need(r1.raw == r2.raw, 'output bytes depend on how the input is cut (%s)', case['chunks'])
    rec.hit('messages', len(r1.transcript))
    rec.hit('log messages', len(r1.logs))
    if len(r1.transcript) > 5:
        rec.nontrivial(case)


# ---------------------------------------------------------------- levels
@st.composite
def level_cases(draw):
    c = draw(histories())
    c['levels'] = draw(st.lists(st.sampled_from(LEVELS), min_size=2, max_size=2, unique=True))
    return c


def opt(level):
    return {'verbose': True} if level == '-v' else {'log_level': level} if level else {}


def check_levels(case, rec):
    r1, a = session(case)
    for lv in case['levels']:
        r2, b = session(case, **opt(lv))
        differ(a, b, 'messages depend on the log level (%s)' % lv)
        rec.hit(lv)
    if len(r1.transcript) > 5:
        rec.nontrivial(case)


# ---------------------- contracts whose objects do things when they are printed
SRC = '''
from iconservice import *


class Peer(InterfaceScore):
    @interface
    def take(self, v): pass


def act(what):
    me = Main.me
    if what == 'write':
        v = VarDB('n', me.db, int)
        v.set(v.get() + 1)
    elif what == 'event':
        me.Printed('p')
    elif what == 'call':
        me.call(me.address, 'count', {})
    elif what == 'step':
        sha3_256(b'x' * 100)
    elif what == 'fail':
        raise ValueError('print')
    elif what == 'revert':
        revert('print', 7)
    elif what == 'base':
        raise BaseException('print')
    elif what == 'deep':
        act('deep')
    elif what == 'none':
        return
    Main.printed += 1


def noisy(base, what, methods):
    d = {}
    for m in methods:
        def f(self, *a, m=m):
            act(what)
            return getattr(base, m)(self, *a)
        d[m] = f
    return type('Noisy', (base,), d)


PRINTS = ['__str__', '__repr__', '__format__']


class Main(IconScoreBase):
    printed = 0
    me = None

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        Main.me = self
        Main.printed = 0

    def on_install(self): pass
    def on_update(self): pass

    @eventlog
    def Printed(self, a: str): pass

    @eventlog
    def Ev(self, a: str, b: int, c: bytes): pass

    @external
    def count(self):
        v = VarDB('c', self.db, int)
        v.set(v.get() + 1)

    @external
    def take(self, v: str):
        return 5

    def _object(self, kind, what):
        if kind == 'str':
            return noisy(str, what, PRINTS + ['encode'])('text')
        if kind == 'int':
            return noisy(int, what, PRINTS + ['__index__', '__int__', 'to_bytes'])(300)
        if kind == 'bytes':
            return noisy(bytes, what, PRINTS + ['hex'])(b'abc')
        if kind == 'list':
            return noisy(list, what, PRINTS + ['__iter__', '__len__'])([1, 'a'])
        if kind == 'dict':
            return noisy(dict, what, PRINTS + ['items', '__iter__', '__len__', 'keys', 'values'])({'a': 1})
        if kind == 'address':
            x = noisy(Address, what, PRINTS + ['to_bytes', '__hash__'])
            return x(self.address.prefix, self.address.body)
        if kind == 'exc':
            return noisy(ValueError, what, PRINTS)('exc')
        if kind == 'bexc':
            return noisy(BaseException, what, PRINTS)('bexc')
        if kind == 'icon':
            return noisy(IconScoreException, what, PRINTS)('icon', 3)
        if kind == 'iconm':
            return IconScoreException(noisy(str, what, PRINTS)('icon'), 3)
        if kind == 'big':
            return 10 ** 6000
        if kind == 'deeplist':
            x = []
            for i in range(600):
                x = [x]
            return x
        return noisy(Plain, what, PRINTS)()

    def _op(self, op):
        name = op[0]
        if name == 'log':
            getattr(Logger, op[1])(self._object(op[2], op[3]))
        elif name == 'logtag':
            getattr(Logger, op[1])('text', self._object(op[2], op[3]))
        elif name == 'call':
            return self.call(self.address, 'take', {'v': self._object(op[1], op[2])})
        elif name == 'calli':
            return self.create_interface_score(self.address, Peer).take(self._object(op[1], op[2]))
        elif name == 'callx':
            # what the call itself is made of
            return self.call(self._object('address', op[2]), self._object('str', op[2]), {'v': 1})
        elif name == 'value':
            return self.call(self.address, 'take', {'v': 1}, self._object('int', op[2]) - 300)
        elif name == 'ev':
            self.Ev(self._object('str', op[2]), self._object('int', op[2]), self._object('bytes', op[2]))
        elif name == 'raise':
            o = self._object(op[1], op[2])
            if isinstance(o, BaseException):
                raise o
            raise ValueError(o)
        elif name == 'raisefrom':
            try:
                raise ValueError('inner')
            except ValueError:
                raise self._object('exc', op[2])
        elif name == 'revert':
            revert(self._object(op[1], op[2]), 5)
        elif name == 'set':
            VarDB('x', self.db, str).set(self._object('str', op[2]))
            DictDB('y', self.db, int)[self._object('str', op[2])] = self._object('int', op[2])
        elif name == 'try':
            try:
                return self._op(op[1])
            except BaseException as e:
                return type(e).__name__
        elif name == 'trylog':
            try:
                return self._op(op[2])
            except BaseException as e:
                getattr(Logger, op[1])('caught')
        elif name == 'ret':
            raise Stop(self._object(op[1], op[2]))

    @external
    def run(self, ops: str):
        out = []
        try:
            for op in ops:
                out.append(self._op(op))
                out.append(Main.printed)
        except Stop as e:
            return e.value
        return out

    # recursion that ends with something
    @external
    def deep(self, n: int, m: int, op: str):
        return self._pad(m, n, op)

    def _pad(self, m, n, op):
        # m shifts the depth by less than one turn
        if m == 0:
            return self._down(n, op)
        if m == 1:
            return (lambda: self._down(n, op))()
        return (lambda: (lambda: self._down(n, op))())()

    def _down(self, n, op):
        if n > 0:
            return self._down(n - 1, op)
        return self._at(op)

    def _at(self, op):
        k = op[0]
        if k == 'get':
            return VarDB('x', self.db, int).get()
        if k == 'set':
            VarDB('x', self.db, int).set(7)
        elif k == 'many':
            for i in range(op[1]):
                VarDB('m%d' % i, self.db, int).set(i)
            return self._at(op[2])
        elif k == 'put':
            ArrayDB('a', self.db, int).put(7)
        elif k == 'in':
            return 7 in ArrayDB('a', self.db, int)
        elif k == 'call':
            return self.call(self.address, 'take', {'v': op[1:]})
        elif k == 'calld':
            return self.call(self.address, 'deep', {'n': op[1], 'm': op[2], 'op': op[3]})
        elif k == 'ev':
            self.Printed('x')
        elif k == 'log':
            getattr(Logger, op[1])('deep')
        elif k == 'bal':
            return self.icx.get_balance(self.address)
        elif k == 'fail':
            raise ValueError('deep')
        elif k == 'revert':
            revert('deep')
        elif k == 'sha':
            return sha3_256(b'')
        elif k == 'try':
            try:
                return self._at(op[1])
            except BaseException as e:
                return type(e).__name__
        return k


class Plain:
    def __repr__(self):
        return 'plain'


class Stop(BaseException):
    def __init__(self, v):
        self.value = v
'''

KINDS = ['str', 'int', 'bytes', 'list', 'dict', 'address', 'exc', 'bexc', 'icon', 'iconm', 'big', 'deeplist', 'object']
ACTS = ['write', 'event', 'call', 'step', 'fail', 'revert', 'base', 'deep', 'count']


@st.composite
def noisy_op(draw, depth=1):
    k = draw(st.sampled_from(['log', 'log', 'logtag', 'call', 'call', 'calli', 'callx', 'value', 'ev', 'raise', 'raise',
                              'raisefrom', 'revert', 'set', 'try', 'try', 'try', 'trylog', 'trylog', 'ret']))
    if k in ('try', 'trylog') and depth:
        op = draw(noisy_op(0))
        return ('try', op) if k == 'try' else ('trylog', draw(st.sampled_from(gen.LEVELS)), op)
    if k in ('log', 'logtag', 'try', 'trylog'):
        return ('log' if k.startswith('try') else k, draw(st.sampled_from(gen.LEVELS)), draw(st.sampled_from(KINDS)),
                draw(st.sampled_from(ACTS)))
    return (k, draw(st.sampled_from(KINDS)), draw(st.sampled_from(ACTS)))


@st.composite
def noisy_cases(draw):
    return {'reqs': draw(st.lists(st.lists(noisy_op(), min_size=1, max_size=4), min_size=1, max_size=3)),
            'limit': draw(st.sampled_from([10 ** 12, 10 ** 12, 10 ** 12, 60000])),
            'levels': draw(st.sampled_from([['trace', 'error'], ['error', 'info'], ['trace', 'warn'], ['trace', '-v']]))}


def noisy_session(reqs, **kw):
    w = single(fixed(SRC), dict(gen.HAVAH))
    out, res = calls(w, reqs, **kw)
    return res, [show(res.transcript), repr(sorted(w.contracts[SELF].store.items()))]


def check_noisy(case, rec):
    reqs = [('run', [ops], {'limit': case['limit']}) for ops in case['reqs']] + [('take', [1])]
    r1, a = noisy_session(reqs)
    for lv in case['levels']:
        differ(a, noisy_session(reqs, **opt(lv))[1], 'messages depend on the log level (%s)' % lv)
    for ops in case['reqs']:
        for op in ops:
            rec.nontrivial(op)
            rec.hit(op[0])
    for r in r1.roots:
        rec.hit('status %d' % r.reply.status)


# ------------------------------------------- recursion to the end of the stack
@st.composite
def bottom(draw, depth=1):
    k = draw(st.sampled_from(['get', 'set', 'put', 'in', 'call', 'calld', 'ev', 'log', 'log', 'bal', 'fail', 'revert',
                              'sha', 'try', 'try', 'try']))
    if k == 'try' and depth:
        return ('try', draw(bottom(0)))
    if k == 'log':
        return ('log', draw(st.sampled_from(gen.LEVELS)))
    if k == 'calld':
        return ('calld', draw(st.integers(0, 40)), draw(st.integers(0, 2)), draw(bottom(0)) if depth else ('get',))
    return (k if k != 'try' else 'get',)


@st.composite
def deep_cases(draw):
    return {'reqs': draw(st.lists(st.tuples(st.one_of(st.integers(800, 990), st.integers(900, 985)), st.integers(0, 2),
                                            bottom()), min_size=1, max_size=8)),
            'level': draw(st.sampled_from(['trace', 'trace', '-v', '-v', 'error']))}


def check_deep(case, rec):
    reqs = [('deep', list(r)) for r in case['reqs']] + [('take', [1])]
    r1, a = noisy_session(reqs)
    differ(a, noisy_session(reqs, **opt(case['level']))[1], 'messages depend on the log level (%s)' % case['level'])
    for q, r in zip(case['reqs'], r1.roots):
        rec.hit('status %d' % r.reply.status)
        rec.nontrivial(q)


# ----------------------- what the other checks generate, run in several ways
ELSEWHERE = ['p03 in', 'p03 out', 'p05 separation', 'p09 functions', 'p10 names', 'p11 amounts', 'p13 texts', 'p13 texts',
             'p14 raised', 'p14 foreign', 'p14 classes', 'p15 foreign', 'p15 trees', 'p16 calls', 'p17 declarations',
             'p18 refused', 'p18 accepted', 'p19 programs', 'p20 frames', 'p22 histories', 'p23 values', 'p23 failing',
             'p24 api']
VOLATILE = re.compile(r'/[^ \'"]*pbt-scores-[^/ \'"]*|(?<=sc_)\d+|(?<= at 0x)[0-9a-f]+|(?<=0x)[0-9a-f]{64}')


def facet_of(name):
    mod, f = name.split(' ')
    m = importlib.import_module('pbt.props.' + mod)
    return next(x for x in m.FACETS if x.name == f)


class Observer(object):
    def __init__(self, **kw):
        self.kw, self.seen = kw, []

    def options(self, kw):
        return dict(self.kw, **{k: v for k, v in kw.items() if v})

    def note(self, res):
        text = res if isinstance(res, str) else show(res.transcript)
        self.seen.append(VOLATILE.sub('', text))


def watch(name, case, **kw):
    """What the executor wrote in the sessions of another check's case."""
    node.observer = Observer(**kw)
    try:
        facet_of(name).check(case, Rec())
    except Violation:
        # the subject of the other check
        pass
    finally:
        seen, node.observer = node.observer.seen, None
    return seen


@st.composite
def all_wrong(draw):
    """Requests with several things wrong at once: the same one is reported everywhere."""
    c = draw(facet_of('p13 texts').strategy())
    wide = [('external', [(n, t, draw(st.sampled_from(p13.HINTS[t])), None) for n, t in zip(
        draw(st.permutations(p13.PNAMES)), draw(st.lists(st.sampled_from(['int', 'bytes', 'bool', 'Address']),
                                                         min_size=2, max_size=8)))]) for _ in range(2)]
    c['reqs'] = []
    c['funcs'], c['rets'] = c['funcs'] + wide, c['rets'] + ['', '']
    for f, (k, ps) in enumerate(c['funcs']):
        for _ in range(2):
            names = [p[0] for p in ps] + draw(st.lists(st.sampled_from(['y1', 'y2', 'y3']), max_size=3, unique=True))
            c['reqs'].append((f, {n: '?%s' % n for n in draw(st.permutations(names))}))
    return c


@st.composite
def elsewhere(draw):
    name = draw(st.sampled_from(ELSEWHERE))
    s = facet_of(name).strategy()
    return {'of': name, 'case': draw(st.one_of(all_wrong(), s) if name == 'p13 texts' else s)}


@st.composite
def elsewhere_cases(draw):
    c = draw(elsewhere())
    c['level'] = draw(st.sampled_from(['trace', 'trace', '-v', 'error', 'warn']))
    c['chunks'] = draw(st.lists(CHUNK, min_size=1, max_size=12))
    return c


def check_elsewhere(case, rec):
    a = watch(case['of'], case['case'])
    differ(a, watch(case['of'], case['case'], **opt(case['level'])),
           '%s: messages depend on the log level (%s)' % (case['of'], case['level']))
    differ(a, watch(case['of'], case['case'], chunks=case['chunks']),
           '%s: messages depend on how the input is cut (%s)' % (case['of'], case['chunks']))
    rec.hit(case['of'])
    rec.hit('sessions', len(a))
    if a:
        rec.nontrivial((case['of'], case['case']))


# ------------------------------------------------------------- processes
@st.composite
def class_case(draw):
    spec = draw(cg.programs())
    return spec


@st.composite
def process_cases(draw):
    return {'seed': draw(st.integers(0, 2 ** 32 - 1)),
            'histories': draw(st.lists(histories(), min_size=4, max_size=8)),
            'classes': draw(st.lists(class_case(), min_size=2, max_size=6)),
            'others': draw(st.lists(elsewhere(), min_size=6, max_size=12))}


def digest_of(case):
    """One digest per session of the case."""
    out = []
    for c in case['histories']:
        out.append(hashlib.sha256(repr(session(c)[1]).encode('utf-8', 'backslashreplace')).hexdigest())
    for spec in case['classes']:
        path = scores.package(cg.source(spec), main=cg.main_name(spec))
        rep, res = run_requests(single(path), [GetApi(path), Invoke(SELF, 'nosuch', [], frm=CALLER)])
        scores.discard(path)
        out.append(hashlib.sha256(repr([(r.status, r.api) for r in rep]).encode()).hexdigest())
    for c in case['others']:
        out.append(hashlib.sha256(repr(watch(c['of'], c['case'])).encode('utf-8', 'backslashreplace')).hexdigest())
    return out


def serve():
    """Child process: one case per line."""
    for line in sys.stdin:
        print(json.dumps(digest_of(from_literal(json.loads(line)))), flush=True)


CHILD = 'import sys; sys.path.insert(0, %r); from pbt import run; run.setup_path(); from pbt.props import p02; p02.serve()'


def check_processes(case, rec):
    env = dict(os.environ, PYTHONHASHSEED=str(case['seed']))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, '-c', CHILD % here], env=env, input=json.dumps(literal(case)) + '\n',
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if p.returncode != 0:
        from ..node import HarnessError
        if 'Violation' in p.stderr:
            raise Violation('in another process: ' + p.stderr.strip().split('\n')[-1])
        raise HarnessError('child: ' + p.stderr[-1500:])
    there = json.loads(p.stdout)
    here = digest_of(case)
    for i, (a, b) in enumerate(zip(here, there)):
        names = ['history %d' % j for j in range(len(case['histories']))] + \
                ['contract %d' % j for j in range(len(case['classes']))] + \
                ['case %d (%s)' % (j, c['of']) for j, c in enumerate(case['others'])]
        need(a == b, 'messages differ in another process with hash seed %d: %s', case['seed'], names[i])
    rec.hit('sessions', len(here))
    for h in case['histories'] + case['classes'] + case['others']:
        rec.nontrivial(h)


FACETS = [
    Facet('chunks', chunk_cases, check_chunks, 500, 30000, 'more than five messages sent; distinct by case'),
    Facet('levels', level_cases, check_levels, 350, 20000, 'more than five messages sent; distinct by case'),
    Facet('noisy', noisy_cases, check_noisy, 500, 30000, 'every operation with an object that acts when it is printed'),
    Facet('deep', deep_cases, check_deep, 250, 15000, 'every operation at the end of a deep recursion'),
    Facet('elsewhere', elsewhere_cases, check_elsewhere, 400, 20000, 'some session was run; distinct by case'),
    Facet('processes', process_cases, check_processes, 42, 2000, 'every session run in two processes; distinct by case'),
]
