"""The API reply against the description computed from the declarations."""
from .. import classgen as cg
from .. import scores
from ..core import Facet
from ..kit import need, same, single
from ..node import GetApi, Invoke, run_requests
from ..kit import CALLER, SELF


def named(x):
    """An API entry with its names as text (the wire has byte strings only)."""
    return [x[0], text(x[1]), x[2], x[3], [param(i) for i in x[4]], x[5]]


def param(i):
    return [text(i[0])] + i[1:3] + ([[param(f) for f in i[3]]] if len(i) > 3 else []) + i[4:]


def text(b):
    need(isinstance(b, bytes), 'name is not a text: %r', b)
    return b.decode('utf-8')


def check(case, rec):
    path = scores.package(cg.source(case), main=cg.main_name(case))
    out, _ = run_requests(single(path), [GetApi(path), GetApi(path)])
    scores.discard(path)
    need(out[0].status == 0, 'API request of a well-formed contract failed with status %s', out[0].status)
    exp = sorted(cg.api(case), key=lambda x: (x[0], x[1]))
    for r in out:
        api = r.api
        need(isinstance(api, list) and all(isinstance(x, list) and len(x) == 6 for x in api), 'malformed API %r', api)
        act = sorted([named(x) for x in api], key=lambda x: (repr(x[0]), repr(x[1])))
        en, an = [x[1] for x in exp], [x[1] for x in act]
        need(en == an, 'listed %s instead of %s', an, en)
        for e, a in zip(exp, act):
            same(e, a, 'description of ' + e[1])
    rec.hit('API entries', len(exp))
    for e in exp:
        rec.hit('entry type %d flags %d' % (e[0], e[2]))
        if len(e[4]) > 1:
            rec.nontrivial(e)
        for i in e[4]:
            rec.hit('struct parameter' if len(i) > 3 else 'list parameter' if i[1] > 15 else 'base parameter')


FACETS = [Facet('declarations', cg.programs, check, 1000, 50000,
                'an API entry with two or more parameters; distinct by entry')]
