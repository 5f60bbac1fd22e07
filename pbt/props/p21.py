"""Log messages and the absence of any effect of them."""
import re

from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from ..model import ANY, MARK
from ..node import Violation
from ..sim import model_run, run_both, world

MIX = {'log': 12, 'db': 3, 'call': 4, 'try': 2, 'ev': 1, 'fee': 1, 'inc': 1, 'revert': 1, 'raise': 1, 'ret': 1}
# the node's level names -> what is enabled: contract's info, debug, warnings of the executor
OPTIONS = {None: (1, 0, 1), '-v': (1, 0, 1), 'panic': (0, 0, 0), 'fatal': (0, 0, 0), 'error': (0, 0, 0),
           'warn': (0, 0, 1), 'info': (1, 0, 1), 'debug': (1, 0, 1), 'trace': (1, 1, 1)}
ERROR, WARN, INFO, DEBUG, TRACE = 2, 3, 4, 5, 6


@st.composite
def cases(draw):
    c = draw(gen.histories(MIX, reqs=3, depth=2, size=6, bad=False, table=gen.costs(safe=True),
                           pool_kw={'size': 2, 'names': ['v'], 'subs': False}))
    c['level'] = draw(st.sampled_from([None, '-v', 'panic', 'fatal', 'error', 'warn', 'info', 'info', 'debug', 'debug',
                                       'trace', 'trace', 'trace']))
    return c


def option(level):
    return {'verbose': True} if level == '-v' else {'log_level': level} if level else {}


SYSTEM = re.compile(r'\[(Score|System)Exception\] ')


def printed(text):
    return text.encode('utf-8', 'backslashreplace').decode('utf-8')


def check(case, rec):
    sim, roots, res, w = run_both(case, **option(case['level']))
    info, debug, warn = OPTIONS[case['level']]
    exp = []
    for depth, level, text, tag in sim.logs:
        if level == 'system':
            if warn:
                exp.append((depth, WARN, 0, None, None))
        elif level == 'icon':
            if info:
                exp.append((depth, DEBUG, 1, SYSTEM, text if isinstance(text, str) else ''))
        elif level == 'debug':
            if debug:
                exp.append((depth, TRACE, 1, tag, text))
        elif info:
            exp.append((depth, DEBUG, 1, tag, text))
    act = [m for m in res.logs if MARK in m[3] or m[1] <= WARN or SYSTEM.search(m[3])]
    for i in range(max(len(exp), len(act))):
        if i >= len(act):
            raise Violation('message %r is not sent at level %s' % (exp[i], case['level']))
        if i >= len(exp):
            raise Violation('unexpected log message %r at level %s' % (act[i], case['level']))
        e, a = exp[i], act[i]
        if e[:3] != a[:3]:
            raise Violation('log message %r should be %r (level %s)' % (a, e, case['level']))
        if e[3] is None:
            part = e[4]
        elif e[3] is SYSTEM:
            part = e[4]
        else:
            part = '[' + MARK + e[3] + '] ' + e[4]
        if part is not None and printed(part) not in a[3]:
            raise Violation('log message %r has not the text %r' % (a, e))
    for m in res.logs:
        # what the executor reports about itself
        if m[1] == TRACE and not debug:
            raise Violation('trace message %r at level %s' % (m, case['level']))
        if m[2] != (1 if m[1] >= DEBUG else 0):
            raise Violation('log message %r has the wrong mark' % (m,))
    n = sum(1 for x in sim.logs if x[1] not in ('system', 'icon'))
    rec.hits(sim.stats)
    rec.hit('level %s' % case['level'])
    rec.hit('contract messages sent', sum(1 for x in exp if x[3] is not None and x[3] is not SYSTEM))
    rec.hit('executor messages sent', sum(1 for x in exp if x[3] is None or x[3] is SYSTEM))
    rec.hit('contract messages disabled', n - sum(1 for x in exp if x[3] is not None and x[3] is not SYSTEM))
    if n:
        rec.nontrivial(case)


FACETS = [
    Facet('levels', cases, check, 1900, 80000, 'some contract code logs; distinct by case'),
]
