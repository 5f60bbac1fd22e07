"""Runs interpreter programs on the executor and on the model and compares."""
from . import interp, scores
from .model import ANY, Sim, match
from .node import Contract, Invoke, Violation, World, run_requests
from .wire import Addr

A, B, C = (Addr('cx' + x * 20) for x in ('a1', 'b2', 'c3'))
OWNERS = {A: Addr('hx' + '51' * 20), B: Addr('hx' + '52' * 20), C: Addr('cx' + '53' * 20)}
EOA = Addr('hx' + 'e0' * 20)
EOA2 = Addr('hx' + 'e1' * 20)
NOWHERE = Addr('cx' + 'dd' * 20)
CONTRACTS = [A, B, C]
NAMES = {'run': ['prog'], 'ro': ['prog'], 'pay': ['prog'], 'on_install': ['prog'], 'on_update': ['prog'],
         'fallback': []}

_code = None


def code():
    """Contracts A and C share one package, B has its own copy."""
    global _code
    if _code is None:
        _code = [scores.package(interp.SOURCE, main='Interp', module='interp'),
                 scores.package(interp.SOURCE, main='Interp', module='interp')]
    return _code


def world(costs, revision=0, balances=None, contracts=CONTRACTS):
    c = code()
    return World({a: Contract(c[1] if a == B else c[0], OWNERS[a], names=NAMES) for a in contracts}, costs, revision,
                 balances)


def request(r):
    """r: dict(to, method, prog|params, frm, value, limit, query, tx)"""
    params = r['params'] if 'params' in r else [r['prog']]
    return Invoke(r['to'], r['method'], params, frm=r.get('frm', EOA), value=r.get('value', 0),
                  limit=r.get('limit', 10 ** 12), query=r.get('query', r['method'] == 'ro'), trace=r.get('trace', False),
                  tx=r.get('tx'))


def model_run(w, costs, revision, balances, reqs, contracts=CONTRACTS, on=None):
    sim = Sim({a: OWNERS[a] for a in contracts}, costs, revision, balances, w.tx)
    roots = []
    for r in reqs:
        q = request(r)
        # the node moves the coins of a request before the execution
        roots.append(sim.invoke(q.to, q.method, list(q.params), q.frm, q.value, q.limit, q.query, q.tx))
        if on:
            on(sim, roots[-1])
    return sim, roots


def diff_frame(mf, rf, what, path, skip=()):
    exp = [m for m in mf.msgs if m[0] in what]
    act = [tuple(m) for m in rf.msgs if m[0] in what]
    if not match(exp, act):
        for i in range(max(len(exp), len(act))):
            e = exp[i] if i < len(exp) else None
            a = act[i] if i < len(act) else None
            if e is None or a is None or not match(e, a):
                raise Violation('frame %s (%s.%s): message %d (%s) %s' % (
                    path, mf.to, mf.method, i, (e or a)[0], where(e, a)))
    for i, (m, r) in enumerate(zip(mf.children, rf.children)):
        diff_frame(m, r, what, '%s.%d' % (path, i), skip)
    if len(mf.children) != len(rf.children):
        raise Violation('frame %s: %d nested executions instead of %d' % (path, len(rf.children), len(mf.children)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def where(e, a, path=''):
    """Human description of the first difference."""
    if isinstance(e, (list, tuple)) and isinstance(a, (list, tuple)):
        for i in range(min(len(e), len(a))):
            if not match(e[i], a[i]):
                return where(e[i], a[i], '%s[%d]' % (path, i))
    if isinstance(e, dict) and isinstance(a, dict) and e.keys() == a.keys():
        for k in e:
            if not match(e[k], a[k]):
                return where(e[k], a[k], '%s[%r]' % (path, k))
    return '%s%s should be %s but is %s' % (path, ':' if path else '', short(e, 300), short(a, 300))


def compare(w, sim, roots, res, what=('CALL', 'EVENT', 'SETFEEPCT', 'RESULT'), store=True):
    for i, (m, r) in enumerate(zip(roots, res.roots)):
        diff_frame(m, r, what, str(i))
    if store:
        for a in sim.store:
            if sim.store[a] != w.contracts[a].store:
                bad = {k for k in set(sim.store[a]) | set(w.contracts[a].store)
                       if sim.store[a].get(k) != w.contracts[a].store.get(k)}
                k = sorted(bad)[0]
                raise Violation('storage of %s differs at slot %s: expected %r, found %r' % (
                    a, k.hex(), sim.store[a].get(k), w.contracts[a].store.get(k)))
        if sim.events != [tuple(e) for e in w.events]:
            raise Violation('recorded events differ: expected %s, found %s' % (short(sim.events), short(w.events)))
        if {a: v for a, v in sim.balances.items() if v} != {a: v for a, v in w.balances.items() if v}:
            raise Violation('balances differ')


def run_both(case, what=('CALL', 'EVENT', 'SETFEEPCT', 'RESULT'), store=True, **kw):
    """case: dict(costs, revision, balances, reqs). Returns (sim, roots, res, world)."""
    costs, rev, bal = case['costs'], case.get('revision', 0), case.get('balances') or {}
    w = world(costs, rev, bal)
    sim, roots = model_run(w, costs, rev, bal, case['reqs'])
    _, res = run_requests(w, [request(r) for r in case['reqs']], **kw)
    compare(w, sim, roots, res, what, store)
    return sim, roots, res, w
