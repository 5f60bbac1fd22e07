"""Strategies for values, containers, operation programs, cost tables."""
from hypothesis import strategies as st

from .sim import A, B, C, EOA, EOA2, NOWHERE
from .wire import Addr

CONTRACTS = [A, B, C]

INT_EDGES = [0, 1, -1, 2, 3, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2 ** 31 - 1,
             2 ** 31, -2 ** 31, 2 ** 32, 2 ** 55, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64,
             2 ** 127, 2 ** 255 - 1, 2 ** 255, -2 ** 255, 2 ** 256 - 1, 2 ** 256, 2 ** 520, -2 ** 1000]


def ints():
    return st.one_of(st.sampled_from(INT_EDGES), st.integers(-300, 300),
                     st.builds(lambda e, d, s: s * ((1 << e) + d), st.integers(0, 300), st.integers(-2, 2),
                               st.sampled_from([1, -1])),
                     st.integers(-2 ** 70, 2 ** 70))


def small_ints():
    return st.integers(0, 12)


SIZES = [0, 1, 2, 7, 31, 32, 33, 54, 55, 56, 57, 127, 128, 255, 256, 257, 600]


def blobs(sizes=SIZES):
    return st.one_of(st.binary(max_size=6), st.builds(lambda n, c: bytes([c]) * n, st.sampled_from(sizes),
                                                      st.sampled_from([0, 1, 0x41, 0x7f, 0x80, 0xff])))


# characters of 1..4 UTF-8 bytes, controls, separators, combining, format
ALPHABET = 'ab%{}"\\\n\x00\x7f é\u00e9e\u0301ߕ가\u2028\ufeff\U0001f600'


def texts(sizes=SIZES):
    return st.one_of(st.text(st.sampled_from(ALPHABET), max_size=6), st.text(max_size=5).filter(utf8),
                     st.builds(lambda n, c: c * n, st.sampled_from(sizes), st.sampled_from('az0')))


def utf8(s):
    try:
        s.encode('utf-8')
        return True
    except UnicodeEncodeError:
        return False


def addrs():
    return st.one_of(st.sampled_from([A, B, C, EOA, EOA2, NOWHERE]),
                     st.builds(lambda p, b: Addr(bytes([p]) + b), st.integers(0, 1), st.binary(min_size=20,
                                                                                             max_size=20)),
                     st.sampled_from([Addr(b'\x00' * 21), Addr(b'\x01' + b'\xff' * 20), Addr(b'\x01' + b'\x00' * 20)]))


def of_type(t):
    return {'int': ints, 'str': texts, 'bytes': blobs, 'bool': st.booleans, 'Address': addrs}[t]()


TYPES = ['int', 'str', 'bytes', 'bool', 'Address']


def typed(depth=2):
    """Any value of the wire's types."""
    leaf = st.one_of(st.none(), st.booleans(), ints(), texts(), blobs(), addrs())
    if depth == 0:
        return leaf
    sub = st.deferred(lambda: typed(depth - 1))
    return st.one_of(leaf, leaf, st.lists(sub, max_size=4), st.dictionaries(texts([0, 1, 31, 32, 300]), sub, max_size=4))


def keys():
    return st.one_of(st.integers(-2, 6), ints(), st.sampled_from(['', 'a', 'b', 'ab', 'k' * 55, 'k' * 56, 'k' * 300]),
                     texts(), blobs(), addrs(), st.booleans())


def few_keys():
    """Keys that are likely to be met again within a case."""
    return st.sampled_from([0, 1, 2, -1, 127, 128, 255, 'a', 'b', '', 'ab', b'a', b'', b'\x01', b'\x7f', b'\x80', b'ab',
                            b'k' * 55, b'k' * 56, 'x' * 255, 'x' * 256, 'x' * 257, A, EOA, True, False])


RISKY = {'aget', 'aset', 'diter', 'afirst'}
BAD_VALUES = [None, [1], {'a': 1}]

CNAMES = ['v', 'w', 'vw', '', 'v' * 55, 'v' * 56, 'v' * 256, 'é', '\x01', '\x00', '1']
SUBS = [b'', b'a', b's' * 56]


@st.composite
def container(draw, kinds=('var', 'dict', 'arr'), names=CNAMES, subs=True):
    k = draw(st.sampled_from(kinds))
    t = draw(st.sampled_from(TYPES))
    n = draw(st.sampled_from(names))
    s = draw(st.sampled_from([[], [], [], [b'a'], [b''], [b's' * 56], [b'a', b'b']])) if subs else []
    if k == 'dict':
        return (k, n, t, s, draw(st.sampled_from([1, 1, 1, 2, 2, 3])))
    return (k, n, t, s)


def pools(size=5, retyped=False, **kw):
    """A few containers, no two of them sharing an entry with other types;
    or, when `retyped`, with others of the same place and other types."""
    if retyped:
        return st.lists(st.tuples(container(**kw), st.lists(st.sampled_from(TYPES), min_size=2, max_size=3, unique=True)),
                        min_size=1, max_size=size).map(
            lambda cs: [c[:2] + (t,) + c[3:] for c, ts in cs for t in ts])

    def distinct(cs):
        seen = {}
        out = []
        for c in cs:
            k = (c[0], c[1], tuple(c[3]))
            if c[0] == 'dict':
                k += (c[4],)
            if k in seen:
                continue
            # a sub-database of a dictionary is by design a deeper dictionary
            seen[k] = 1
            out.append(c)
        return out
    return st.lists(container(**kw), min_size=1, max_size=size).map(distinct)


DB_OPS = {'var': ['vset', 'vset', 'vset', 'vget', 'vget', 'vrm'],
          'dict': ['dset', 'dset', 'dset', 'dget', 'dget', 'drm', 'din'],
          'arr': ['aput', 'aput', 'aput', 'aput', 'apop', 'aget', 'aget', 'aset', 'alen', 'aiter', 'ain']}


@st.composite
def db_op(draw, pool, key=None, value=None, bad=True, op=None):
    c = draw(st.sampled_from(pool))
    o = op or draw(st.sampled_from(DB_OPS[c[0]]))
    key = key or few_keys()

    def val():
        if bad and draw(st.integers(0, 40)) == 0:
            return draw(st.sampled_from(BAD_VALUES))
        return draw(value(c[2]) if value else of_type(c[2]))

    def ks():
        n = c[4]
        if bad and draw(st.integers(0, 40)) == 0:
            n = max(1, n - 1)
        return [draw(key) for _ in range(n)]
    if o == 'vset':
        return (o, c, val())
    if o in ('vget', 'vrm', 'apop', 'alen', 'afirst'):
        return (o, c)
    if o == 'dset':
        return (o, c, ks(), val())
    if o in ('dget', 'din'):
        return (o, c, ks())
    if o == 'drm':
        return (o, c, ks(), draw(st.integers(0, 1)))
    if o == 'aput':
        return (o, c, val())
    if o == 'aget':
        return (o, c, draw(idx()), draw(st.integers(0, 1)))
    if o == 'aset':
        return (o, c, draw(idx()), val())
    if o == 'aiter':
        return (o, c, draw(st.sampled_from([0, 1, 2, 5, 300])))
    if o == 'ain':
        if bad and draw(st.integers(0, 5)) == 0:
            return (o, c, draw(of_type(draw(st.sampled_from(TYPES)))))
        return (o, c, val())
    raise AssertionError(o)


def idx():
    return st.one_of(st.integers(-4, 5), st.sampled_from([-1, 0, -300, 300, 127, 128, 2 ** 64, -2 ** 64]))


LEVELS = ['debug', 'info', 'warning', 'error', 'exception']

EVENT_ARGS = {'E0': [], 'E1': ['int'], 'E2': ['str', 'bytes'], 'E3': ['Address', 'int', 'str'],
              'E4': ['bool', 'bytes', 'Address', 'int', 'str'], 'E5': ['str', 'int']}
EVENT_NAMES = {'E0': [], 'E1': ['a'], 'E2': ['a', 'b'], 'E3': ['a', 'b', 'c'], 'E4': ['a', 'b', 'c', 'd', 'e'],
               'E5': ['a', 'b']}


@st.composite
def event_op(draw, wrong=True):
    n = draw(st.sampled_from(sorted(EVENT_ARGS)))
    ts = EVENT_ARGS[n]
    vals = [draw(st.one_of(of_type(t), of_type(t), of_type(t), st.none())) for t in ts]
    pos = draw(st.integers(0, len(ts)))
    args, kwargs = vals[:pos], dict(zip(EVENT_NAMES[n][pos:], vals[pos:]))
    if wrong and draw(st.integers(0, 6)) == 0:
        w = draw(st.integers(0, 3))
        if w == 0:
            args = args + [draw(ints())]
        elif w == 1 and args:
            i = draw(st.integers(0, len(args) - 1))
            args = args[:i] + [draw(of_type(draw(st.sampled_from(TYPES))))] + args[i + 1:]
        elif w == 2 and kwargs:
            kwargs.pop(draw(st.sampled_from(sorted(kwargs))))
        elif w == 3 and args and EVENT_NAMES[n]:
            kwargs = dict(kwargs)
            kwargs[EVENT_NAMES[n][0]] = 1
    return ('ev', n, args, kwargs)


LOGGED = ['5', 'None', "b'x'", "['a', 1]", "{'a': 1}", "Exception('m')", '1.5', 'chr(0xd800)', "'a' + chr(0xdfff) + 'b'",
          '10 ** 5000', 'True', "('a', 'b')", "'%s %d {} {0}'", "'x' * 70000", "'\\n\\r\\x00\\x1b[0m'", "''",
          "'é' * 300", 'int', "ValueError()", "('a',)", "'%(levelname)s'", '-1']


@st.composite
def log_op(draw):
    level = draw(st.sampled_from(LEVELS))
    k = draw(st.integers(0, 5))
    tag = draw(st.sampled_from(['T', '%s', '', 'é{}', 'TAG']))
    text = draw(texts([0, 1, 300]))
    if k == 0:
        op = ('logx', level, draw(st.sampled_from(LOGGED)), tag)
    elif k == 1:
        op = ('login', level, text, tag)
    else:
        op = ('log', level, text, draw(st.sampled_from([None, tag])))
    if draw(st.integers(0, 4)) == 0 or op[0] == 'logx':
        op = ('try', [op], 'all')
    return op


def revert_op():
    return st.builds(lambda f, m, c: ('revert', f, m, c), st.integers(0, 6),
                     st.one_of(texts([0, 1, 300]), st.just('boom')),
                     st.sampled_from([0, 0, 1, 5, 32, 100, 966, 967, 968, 969, 1000, -1, -32, -33, 10 ** 9]))


PLAIN_RAISES = ['base', 'exit', 'kbd', 'gen', 'zero', 'attr', 'name', 'assert', 'key', 'type', 'stop', 'value', 'exc',
                'rec']


def raise_op(kinds=PLAIN_RAISES):
    return st.builds(lambda k, m: ('raise', k, m), st.sampled_from(kinds), st.sampled_from(['', 'm', 'é%s{}']))


def bad_result_op():
    return raise_op(['retobj', 'retset', 'retfloat', 'retdict', 'retnest', 'retsurr', 'revsurr'])


@st.composite
def program(draw, pool, mix, depth=2, size=8, key=None, bad=True, value=None, targets=None):
    """mix: {op group: weight}. Groups: db, try, seq, call, ev, fee, getfee,
    ctx, revert, raise, badret, ret, inc, log, hash, key, json, pend, xfer, bal"""
    groups = [g for g, w in sorted(mix.items()) for _ in range(w)]
    n = draw(st.integers(1, size))
    out = []
    for _ in range(n):
        g = draw(st.sampled_from(groups))
        if g == 'db':
            op = draw(db_op(pool, key, value, bad))
            # most failures are caught, so that the rest of the program runs
            if (op[0] in RISKY or draw(st.integers(0, 3)) == 0) and draw(st.integers(0, 5)):
                op = ('try', [op], 'all')
            out.append(op)
        elif g == 'try' or g == 'seq':
            sub = draw(program(pool, mix, depth - 1, 3, key, bad, value, targets)) if depth > 0 else []
            out.append(('seq', sub) if g == 'seq' else
                       ('try', sub, draw(st.sampled_from(['icon', 'exc', 'all', 'all']))))
        elif g == 'call':
            op = draw(call_op(pool, mix, depth, key, bad, value, targets))
            if draw(st.integers(0, 2)):
                op = ('try', [op], draw(st.sampled_from(['icon', 'all', 'all'])))
            out.append(op)
        elif g == 'pend':
            out.append(('icx', draw(st.sampled_from(CONTRACTS)), draw(st.integers(0, 3))))
        elif g == 'xfer':
            t = draw(st.sampled_from([A, B, C, EOA, NOWHERE]))
            op = (draw(st.sampled_from(['xfer', 'send'])), t, draw(st.sampled_from([0, 1, 2, 50, 10 ** 20])))
            if op[0] == 'xfer' and draw(st.booleans()):
                op = ('try', [op], draw(st.sampled_from(['icon', 'all'])))
            out.append(op)
        elif g == 'bal':
            out.append(('bal', draw(st.sampled_from([A, B, C, EOA]))))
        elif g == 'ev':
            op = draw(event_op())
            if draw(st.integers(0, 5)):
                op = ('try', [op], 'all')
            out.append(op)
        elif g == 'fee':
            op = ('fee', draw(st.sampled_from([0, 1, 50, 99, 100, 100, 101, -1, 1000])))
            if draw(st.integers(0, 2)):
                op = ('try', [op], 'all')
            out.append(op)
        elif g == 'getfee':
            out.append(('getfee',))
        elif g == 'ctx':
            out.append(('ctx',))
        elif g == 'revert':
            out.append(draw(revert_op()))
        elif g == 'raise':
            out.append(draw(raise_op()))
        elif g == 'badret':
            out.append(draw(bad_result_op()))
        elif g == 'ret':
            out.append(('ret', draw(typed(1))))
        elif g == 'inc':
            out.append(('inc',))
        elif g == 'log':
            out.append(draw(log_op()))
        elif g == 'hash':
            out.append((draw(st.sampled_from(['sha3', 'sha2'])), draw(blobs())))
        elif g == 'json':
            out.append(('jd', draw(st.sampled_from([1, 'é', [1, 'a'], {'a': None}]))))
        else:
            raise AssertionError(g)
    return out


@st.composite
def call_op(draw, pool, mix, depth, key=None, bad=True, value=None, targets=None):
    to = draw(st.sampled_from(targets or [A, B, C, A, B, C, A, B, C, NOWHERE, EOA]))
    sub = draw(program(pool, mix, depth - 1, 5, key, bad, value, targets)) if depth > 0 else [('inc',)]
    val = draw(st.sampled_from([0, 0, 0, 1, 3, 10 ** 20]))
    m = draw(st.sampled_from(['run', 'run', 'run', 'run', 'ro', 'pay', 'pay', 'other', 'nothing']))
    if m == 'pay' and val == 0 and draw(st.booleans()):
        val = 1
    form = draw(st.sampled_from(['if', 'if', 'gen']))
    if form == 'gen':
        if m in ('other', 'nothing'):
            m = draw(st.sampled_from(['hidden', 'fallback', 'on_install', 'nosuch', '', '_exec']))
        return ('call', 'gen', to, val, m, [], {'prog': sub})
    if m in ('run', 'ro', 'pay'):
        if draw(st.integers(0, 3)) == 0:
            return ('call', 'if', to, val, m, [], {'prog': sub})
        return ('call', 'if', to, val, m, [sub], {})
    if m == 'nothing':
        return ('call', 'if', to, val, m, [], {})
    return ('call', 'if', to, val, m, [draw(typed(1))], draw(st.sampled_from([{}, {'b': 1}, {'c': None}])))


# ------------------------------------------------------------- cost tables
HAVAH = {'schema': 1, 'getBase': 3000, 'get': 25, 'setBase': 10000, 'set': 320, 'deleteBase': 200, 'delete': -240,
         'logBase': 5000, 'log': 100, 'apiCall': 10000}
ICON0 = {'get': 0, 'set': 320, 'replace': 80, 'delete': -240, 'eventLog': 100, 'apiCall': 10000,
         'contractCall': 25000, 'default': 100000}
ICON0B = {'schema': 0, 'get': 25, 'set': 320, 'replace': 80, 'delete': -240, 'eventLog': 100, 'apiCall': 10000}


@st.composite
def costs(draw, safe=False):
    """Tables of both schemas. safe: refunds and deletes never cost steps."""
    k = draw(st.integers(0, 7))
    if k == 0:
        return dict(HAVAH)
    if k == 1:
        return dict(draw(st.sampled_from([ICON0, ICON0B])))
    n = st.one_of(st.integers(0, 12), st.sampled_from([0, 1, 7, 25, 320, 1000]))
    if k <= 4:
        t = {'schema': 1}
        for x in ('getBase', 'get', 'setBase', 'set', 'deleteBase', 'logBase', 'log', 'apiCall'):
            t[x] = draw(n)
        t['delete'] = draw(st.integers(-300, 0 if safe else 12))
        if safe:
            t['deleteBase'] = min(t['deleteBase'], t['setBase'], -t['delete'])
    else:
        t = draw(st.sampled_from([{}, {'schema': 0}]))
        t = dict(t)
        for x in ('get', 'set', 'replace', 'eventLog', 'apiCall'):
            t[x] = draw(n)
        t['delete'] = draw(st.integers(-300, 0 if safe else 12))
        if safe:
            t['replace'] = min(t['replace'], t['set'])
    if not safe and draw(st.integers(0, 3)) == 0:
        for x in draw(st.lists(st.sampled_from(sorted(t)), max_size=2)):
            if x != 'schema':
                t.pop(x, None)
    if draw(st.integers(0, 3)) == 0:
        t['contractCall'] = 25000       # meant for the node
        t['unknownCost'] = 9
    return t


BALANCES = {A: 1000, B: 5, C: 100, EOA: 7}


@st.composite
def histories(draw, mix, reqs=3, depth=2, size=8, table=None, key=None, bad=True, methods=('run', 'run', 'run', 'pay',
              'ro'), extra=None, pool_kw=None, value=None, targets=None, query=True):
    pool = draw(pools(**(pool_kw or {})))
    case = {'costs': draw(table or costs()), 'revision': draw(st.sampled_from([0, 0, 256, 511])),
            'balances': dict(BALANCES), 'reqs': []}
    for _ in range(draw(st.integers(1, reqs))):
        m = draw(st.sampled_from(methods))
        r = {'to': draw(st.sampled_from(CONTRACTS)), 'method': m,
             'prog': draw(program(pool, mix, depth, size, key, bad, value, targets))}
        if m == 'pay':
            r['value'] = draw(st.sampled_from([0, 1, 10 ** 18]))
        if query and m != 'ro' and draw(st.integers(0, 9)) == 0:
            r['query'] = True
        if m == 'ro' and draw(st.integers(0, 3)) == 0:
            r['query'] = False
        case['reqs'].append(r)
    return case
