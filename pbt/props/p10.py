"""Requests of arbitrary names on generated contract classes."""
from hypothesis import strategies as st

from .. import classgen as cg
from .. import scores
from ..core import Facet
from ..kit import CALLER, SELF, need, same, single
from ..node import Invoke, run_requests
from ..wire import Addr

HOOKS = ('on_install', 'on_update')
ODD = ['__init__', '__call__', '__class__', '__dict__', '__del__', '__str__', '__hash__', '_IconScoreBase__call',
       '_IconScoreBase__get_api', '_IconScoreBase__validate_call', '_context', '__api', '__element_metadata', 'F0', 'f0 ',
       ' f0', 'f0\x00', 'f0()', 'f0.__call__', 'E\u0301', 'Fallback', 'FALLBACK', 'fallback ', 'on_instal', 'On_install',
       'x' * 59, 'x' * 61, 'zz', 'self', 'C0.f0', '_m', 'None', '0', '\u00e9', '__score_flag', 'external', 'payable', 'mro',
       '\uff46\uff10', '__init_subclass__', '_abc_impl', '__abstractmethods__', '_ContextGetter__x', 'getattr',
       '__getattribute__', '__reduce__', '__subclasshook__']
TEXTS = {'int': [('0x5', 5), ('-3', -3), ('0x0', 0)], 'str': [('', ''), ('0x1', '0x1'), ('é', 'é')],
         'bytes': [('0x0a0b', b'\x0a\x0b'), ('', b'')], 'bool': [('0x1', True), ('0', False)],
         'Address': [('hx' + 'ab' * 20, Addr('hx' + 'ab' * 20)), ('cx' + '00' * 20, Addr('cx' + '00' * 20))]}
DEFAULT = {'0': 0, '5': 5, '-129': -129, '2**70': 2 ** 70, '128': 128, "''": '', "'é'": 'é', "'0x1'": '0x1', "b''": b'',
           "b'\\x00'": b'\x00', "b'ab'": b'ab', 'True': True, 'False': False, cg.ADDR_DEF: Addr('hx' + 'ab' * 20),
           'SYSTEM_SCORE_ADDRESS': Addr('cx' + '00' * 20), 'None': None}
AMOUNTS = [1, 2, 127, 128, 255, 256, 10 ** 18, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 255, 2 ** 256]


@st.composite
def args_for(draw, m, by_name):
    """(parameters to send, values the method gets)"""
    if by_name:
        sent, got = {}, []
        for n, h, d in m['params']:
            if d is not None and draw(st.booleans()):
                got.append(DEFAULT[d])
                continue
            depth, b = cg.strip(h)
            if depth or b not in cg.CODES:
                v = draw(st.sampled_from([[1, 'a'], [], {'x0': 1}]))
                sent[n] = v
                got.append(v)
            else:
                t, v = draw(st.sampled_from(TEXTS[b.strip("'")]))
                sent[n] = t
                got.append(v)
        return sent, got
    k = sum(1 for p in m['params'] if p[2] is None)
    k = draw(st.integers(k, len(m['params'])))
    sent = [draw(st.sampled_from([0, 'x', b'y', None, True, [1], CALLER])) for _ in range(k)]
    return sent, sent + [DEFAULT[p[2]] for p in m['params'][k:]]


@st.composite
def cases(draw, values=True, odd=True, size=8):
    spec = draw(cg.programs())
    eff = cg.effective(spec)
    names = sorted(eff)
    own = [n for n in names if n not in cg.FRAMEWORK]
    reqs = []
    for _ in range(draw(st.integers(3, size))):
        k = draw(st.integers(0, 9))
        if k <= 5 and own:
            n = draw(st.sampled_from(own))
        elif k == 6:
            n = draw(st.sampled_from(HOOKS))
        elif k == 7:
            n = draw(st.sampled_from(['', 'fallback', 'fallback']))
        elif k == 8 and odd:
            n = draw(st.sampled_from(cg.FRAMEWORK))
        elif odd:
            n = draw(st.one_of(st.sampled_from(ODD), st.text(max_size=5)))
        else:
            n = draw(st.sampled_from(names))
        m = eff.get(n)
        by_name = draw(st.integers(0, 2)) == 0
        if m is not None and m['style'] == 'def':
            sent, got = draw(args_for(m, by_name))
        else:
            sent, got = draw(st.sampled_from([[], [1], {}, {'a': '0x1'}, {'self': 'x'}, {'cls': '1'}])), None
        if values:
            v = draw(st.sampled_from([0, 0, 0] + AMOUNTS[:3])) if odd else draw(st.sampled_from([0, 0, 0, 0] + AMOUNTS))
        else:
            v = 0
        reqs.append((n, sent, got, v))
    return {'spec': spec, 'reqs': reqs}


def expected(eff, name, value):
    """'run', 3 (method not found) or 4 (not payable)"""
    m = eff.get(name)
    if name in HOOKS:
        return 'run' if value == 0 else 4
    if m is None or m['style'] != 'def':
        return 3
    f = cg.flags_of(m['decs'])
    if name == 'fallback':
        return 'run' if f & cg.FLAG_PAY else 3
    if not f & cg.FLAG_EXT:
        return 3
    return 'run' if value == 0 or f & cg.FLAG_PAY else 4


def check(case, rec):
    spec = case['spec']
    eff = cg.effective(spec)
    path = scores.package(cg.source(spec), main=cg.main_name(spec))
    readonly = [n for n, m in eff.items() if cg.flags_of(m['decs']) & cg.FLAG_RO]
    try:
        out, res = run_requests(single(path, readonly=readonly), [
            Invoke(SELF, n, sent, frm=CALLER, value=v) for n, sent, got, v in case['reqs']])
    except UnicodeEncodeError:
        return
    finally:
        scores.discard(path)
    for (n, sent, got, v), r in zip(case['reqs'], out):
        e = expected(eff, n, v)
        what = 'request of %r with amount %d' % (n, v)
        writes = [x for x in r.frame.msgs if x[0] in ('SETVALUE', 'EVENT', 'CALL', 'SETFEEPCT')]
        if e == 'run':
            m = eff[n]
            rec.hit('runs' + (' with coins' if v else ''))
            need(r.status == 0, '%s: status %s (%r), but it should run', what, r.status, r.value)
            same(['%s.%s' % (m['cls'], m['name'])] + (got if n != 'fallback' else []), r.value, what)
            ro = cg.flags_of(m['decs']) & cg.FLAG_RO
            need(len(writes) == (0 if ro else 1), '%s: state changes %s', what, writes)
        else:
            rec.hit('status %d' % e)
            need(r.status == e, '%s: status %s (%r) instead of %d', what, r.status, r.value, e)
            need(not writes, '%s ran contract code: %s', what, writes)
        rec.nontrivial((n, e, v > 0, eff.get(n)))


FACETS = [Facet('names', cases, check, 1300, 60000,
                'every request; distinct by name, declaration, outcome and whether coins are attached')]
