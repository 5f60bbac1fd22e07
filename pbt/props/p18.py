"""Well-formed contracts are accepted, mutated ones are refused."""
import copy

from hypothesis import strategies as st

from .. import classgen as cg
from .. import scores
from ..core import Facet
from ..kit import CALLER, SELF, need, same, single
from ..node import GetApi, Invoke, run_requests

BAD_HINTS = ['float', 'list', 'List', 'dict', 'Dict', 'Dict[str, int]', 'dict[str, int]', 'Dict[int, int]', 'tuple', 'set',
             'object', 'Any', 'Union[int, str]', 'Union[int, str, None]', "'int'", "'str'", "'List[int]'", 'List[float]',
             'List[dict]', 'List[List[float]]', 'List[Dict[str, int]]', 'list[dict[str, int]]', 'Optional[float]',
             'Optional[Dict[str, int]]', 'Optional[list]', 'type', 'Callable', 'IconScoreBase', 'Tuple[int]', 'Set[int]',
             'Iterable[int]', "'address'", 'AddressPrefix', 'bytearray', 'List[Any]', 'List[set]', 'Sequence[int]',
             'complex', 'VarDB', '5', 'None', 'InterfaceScore', 'Mapping[str, int]', "'Addres'", 'List[object]']
BAD_DEFAULTS = {'int': ["'1'", 'True', 'False', "b'1'", '1.5', cg.ADDR_DEF, '[]', '{}', "''", "b''", '0.0'],
                'str': ['1', '0', "b'a'", "b''", 'True', 'False', cg.ADDR_DEF, '[]', '{}', '()'],
                'bytes': ["'a'", "''", '0', 'False', 'bytearray()', '[]'],
                'bool': ['0', '1', "'True'", "''", "b''", '0.0', '[]'],
                'Address': ["'hx%s'" % ('ab' * 20), "b'%s'" % ('a' * 21), '0', 'False', "''", "b''"],
                'List[int]': ['5', "'a'", 'True', '0', "b''"]}
BAD_PAIRS = [['external', 'external'], ['payable', 'payable'], ['external(readonly=True)', 'payable'],
             ['payable', 'external(readonly=True)'], ['external', 'eventlog'], ['eventlog', 'external'],
             ['external', 'interface'], ['interface', 'external'], ['payable', 'eventlog'], ['eventlog', 'payable'],
             ['eventlog', 'eventlog'], ['payable', 'interface'], ['eventlog', 'interface'],
             ['external', 'external(readonly=True)'], ['external(readonly=True)', 'external(readonly=True)'],
             ['external', 'payable', 'external'], ['payable', 'external', 'payable'],
             ['external', 'payable', 'eventlog'], ['external(readonly=True)', 'external', 'payable'],
             ['eventlog(indexed=1)', 'external(readonly=True)'], ['interface', 'payable', 'external']]


@st.composite
def declared(draw, name):
    """Decorators and parameters of some good function."""
    k = draw(st.integers(0, 3))
    decs = [['external'], ['external(readonly=True)'], ['payable', 'external'], ['eventlog']][k]
    ps = draw(cg.params((), names='klmno', most=3, events=k == 3))
    return cg.member(name, decs, ps)


@st.composite
def mutation(draw, spec, i):
    """Adds one ill-formed declaration to the class program."""
    name = 'bad%d' % i
    cls = draw(st.sampled_from(spec['classes']))
    k = draw(st.sampled_from(['decs', 'decs', 'fallback', 'hook', 'hint', 'hint', 'hint', 'kind', 'default', 'default', 'struct',
                              'struct', 'event', 'event', 'object']))
    m = None
    if k == 'decs':
        ds = draw(st.sampled_from(BAD_PAIRS))
        ps = [('a', 'int', None)] if 'eventlog' in ' '.join(ds) else draw(cg.params((), most=2))
        m = cg.member(name, ds, ps)
    elif k == 'fallback':
        f = draw(st.sampled_from(['ext', 'extpay', 'payext', 'ro', 'param', 'dparam', 'ret']))
        m = {'ext': cg.member('fallback', ['external']), 'extpay': cg.member('fallback', ['external', 'payable']),
             'payext': cg.member('fallback', ['payable', 'external']), 'ro': cg.member('fallback', cg.RO),
             'param': cg.member('fallback', ['payable'], [('a', 'int', None)]),
             'dparam': cg.member('fallback', ['payable'], [('a', 'int', '5')]),
             'ret': cg.member('fallback', ['payable'], ret=draw(st.sampled_from(['int', 'str', 'dict', 'List[int]'])))}[f]
        if f in ('param', 'dparam', 'ret'):
            # these are judged on the fallback that is in effect
            cls = spec['classes'][-1]
        k += ' ' + f
    elif k == 'hook':
        ds = draw(st.sampled_from([['external'], ['payable'], ['external(readonly=True)'], ['eventlog'],
                                   ['external', 'payable'], ['interface']]))
        cls = spec['classes'][-1]
        m = cg.member(draw(st.sampled_from(['on_install', 'on_update'])), ds)
    elif k in ('hint', 'kind', 'default'):
        where = draw(st.sampled_from(['func', 'func', 'hook']))
        if where == 'hook':
            cls = spec['classes'][-1]
            m = cg.member(draw(st.sampled_from(['on_install', 'on_update'])), [], draw(cg.params((), names='klm', most=2)))
        else:
            m = draw(declared(name))
        ps = m['params']
        mand = sum(1 for p in ps if p[2] is None)
        if k == 'hint':
            h = draw(st.sampled_from(BAD_HINTS))
            ps.insert(draw(st.integers(0, mand)), ('z', h, None))
            k += ' ' + h
        elif k == 'kind':
            t = draw(st.sampled_from(['*args', '**kwargs', '*, z: int', '*, z: int = 5', '*args: int', '**kwargs: int',
                                      '*args, **kwargs']))
            if draw(st.integers(0, 3)) == 0:
                m['params'] = [('z', 'int', None), ('/', None, None)]
                t = '/'
            else:
                m['tail'] = t
            k += ' ' + t
        else:
            h = draw(st.sampled_from(sorted(BAD_DEFAULTS) + ['Optional[int]', 'Optional[str]', 'none']))
            if m['decs'] == ['eventlog'] and h not in cg.BASE:
                h = 'int'
            v = draw(st.sampled_from(BAD_DEFAULTS[cg.strip(h)[1] if h.startswith('Opt') else 'str' if h == 'none' else h]))
            ps.append(('z', None if h == 'none' else h, v))
    elif k == 'struct':
        f = draw(st.sampled_from(['field', 'field', 'big', 'circle', 'circle2', 'listcircle', 'nested', 'optional']))
        n = 'T%d' % i
        h = n
        if f == 'big':
            fs = [('y%d' % j, draw(st.sampled_from(cg.BASE))) for j in range(draw(st.sampled_from([17, 18, 40])))]
        else:
            fs = [('y0', draw(st.sampled_from(cg.BASE)))]
        if f == 'field':
            fs.insert(draw(st.integers(0, 1)), ('w', draw(st.sampled_from([b for b in BAD_HINTS if b != 'None']))))
        spec['structs'] = spec['structs'] + [(n, fs)]
        if f == 'nested':
            spec['structs'] = spec['structs'][:-1] + [('U' + n, [('q', 'float')]), (n, [('p', draw(st.sampled_from(
                ['U' + n, 'List[U%s]' % n, 'Optional[U%s]' % n])))])]
        extra = {'circle': "%s.__annotations__['c'] = %s\n" % (n, n),
                 'listcircle': "%s.__annotations__['c'] = List[%s]\n" % (n, n),
                 'optional': "%s.__annotations__['c'] = Optional[%s]\n" % (n, n),
                 'circle2': "class V%s(TypedDict):\n    a: %s\n\n\n%s.__annotations__['c'] = V%s\n" % (n, n, n, n)}.get(f, '')
        # the bad struct may be anywhere in good ones
        for j in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
            fs = [('v%d' % x, draw(st.sampled_from(cg.BASE + ['List[int]', 'Optional[str]'])))
                  for x in range(draw(st.integers(0, 3)))]
            fs.insert(draw(st.integers(0, len(fs))), ('p', draw(st.sampled_from([n, n, n, 'List[%s]' % n, 'Optional[%s]' % n]))))
            n = 'X%d%d' % (i, j)
            spec['structs'] = spec['structs'] + [(n, fs)]
            f += '+'
        spec['extra'] = spec.get('extra', '') + extra + ('\n\n' if extra else '')
        h = draw(st.sampled_from([n, n, 'List[%s]' % n, 'Optional[%s]' % n, 'List[List[%s]]' % n]))
        m = cg.member(name, draw(st.sampled_from([['external'], ['external(readonly=True)']])), [('z', h, None)])
        k += ' ' + f
    elif k == 'event':
        f = draw(st.sampled_from(['noself', 'nothing', 'many', 'over', 'nohint', 'badhint', 'structhint']))
        ps = draw(cg.params((), most=3, events=True))
        d = 'eventlog'
        first = 'self'
        if f == 'noself':
            first = draw(st.sampled_from(['this', 'cls', 'Self']))
        elif f == 'nothing':
            first, ps = '', []
        elif f == 'many':
            ps = [(c, 'int', None) for c in 'abcdef'[:draw(st.integers(4, 6))]]
            d = 'eventlog(indexed=%d)' % draw(st.integers(4, len(ps)))
        elif f == 'over':
            ps = ps[:2]
            d = 'eventlog(indexed=%d)' % (len(ps) + 1)
        elif f == 'nohint':
            ps.insert(0, ('z', None, None))
        elif f == 'badhint':
            ps.insert(0, ('z', draw(st.sampled_from([h for h in BAD_HINTS if h != 'None'] + ['List[int]', 'Optional[int]', 'List[str]'])), None))
        else:
            n = 'T%d' % i
            spec['structs'] = spec['structs'] + [(n, [('y0', 'int')])]
            ps.insert(0, ('z', n, None))
        m = cg.member(name, [d], ps, first=first)
        k += ' ' + f
    elif k == 'object':
        d = draw(st.sampled_from(['external', 'payable', 'eventlog', 'external(readonly=True)']))
        f = draw(st.sampled_from(['property', 'staticmethod', 'classmethod']))
        m = cg.member(name, [d, f], [])
        k += ' ' + f
    ms = [x for x in cls['members'] if x['name'] != m['name']]
    ms.insert(draw(st.integers(0, len(ms))), m)
    cls['members'] = ms
    spec['bad'] = spec.get('bad', []) + [k]


@st.composite
def broken(draw):
    spec = copy.deepcopy(draw(cg.programs()))
    if draw(st.integers(0, 12)) == 0:
        # no external method at all
        for c in spec['classes']:
            c['members'] = [m for m in c['members'] if not cg.flags_of(m['decs'])]
        spec['bad'] = ['no external']
        return spec
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        draw(mutation(spec, i))
    return spec


def requests(spec, path):
    """Everything one might want to run: names with plausible arguments."""
    reqs = [GetApi(path)]
    for n, m in sorted(cg.effective(spec).items()):
        if m['style'] == 'def' and (cg.flags_of(m['decs']) or n in ('on_install', 'on_update', 'fallback')):
            k = sum(1 for p in m['params'] if p[2] is None and p[0] != '/')
            reqs.append(Invoke(SELF, n, [0] * k, frm=CALLER))
    reqs.append(GetApi(path))
    return reqs


def check_broken(case, rec):
    src = cg.source(case)
    compile(src, 'main', 'exec')     # refused for its declarations, not its syntax
    path = scores.package(src, main=cg.main_name(case))
    reqs = requests(case, path)
    out, _ = run_requests(single(path), reqs)
    scores.discard(path)
    for q, r in zip(reqs, out):
        what = 'API request' if isinstance(q, GetApi) else 'request of ' + q.method
        need(r.status != 0, '%s succeeds on a contract with an invalid declaration (%s)', what, ', '.join(case['bad']))
        need(not [m for m in r.frame.msgs if m[0] in ('SETVALUE', 'EVENT', 'CALL', 'SETFEEPCT')],
             '%s runs code of a contract with an invalid declaration (%s)', what, ', '.join(case['bad']))
    for b in case['bad']:
        rec.hit(b.split(' ')[0] if b.startswith('hint') or b.startswith('kind') else b)
    rec.nontrivial(case)


def check_good(case, rec):
    path = scores.package(cg.source(case), main=cg.main_name(case))
    reqs = requests(case, path)
    eff = cg.effective(case)
    out, _ = run_requests(single(path, readonly=[n for n, m in eff.items() if cg.flags_of(m['decs']) & cg.FLAG_RO]), reqs)
    scores.discard(path)
    for q, r in zip(reqs, out):
        if isinstance(q, GetApi):
            need(r.status == 0, 'API request of a well-formed contract fails with %s', r.status)
            continue
        m = eff[q.method]
        f = cg.flags_of(m['decs'])
        if (f & cg.FLAG_EXT) or q.method in ('on_install', 'on_update') or (q.method == 'fallback' and f & cg.FLAG_PAY):
            need(r.status == 0, '%s of a well-formed contract fails with %s (%r)', q.method, r.status, r.value)
            rec.hit('runs')
    n = sum(len(m['params']) for m in eff.values() if m['decs'])
    if n > 1:
        rec.nontrivial(case)


FACETS = [
    Facet('refused', broken, check_broken, 1000, 50000, 'every ill-formed contract; distinct by contract'),
    Facet('accepted', cg.programs, check_good, 500, 20000, 'two or more declared parameters; distinct by contract'),
]
