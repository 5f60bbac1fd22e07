"""Helpers for properties that use contracts of their own."""
import sys

from . import scores
from .node import Contract, Invoke, Violation, World, run_requests
from .wire import Addr

SELF = Addr('cx' + '7a' * 20)
OWNER = Addr('hx' + '51' * 20)
CALLER = Addr('hx' + 'e0' * 20)

_cache = {}


def fixed(source, main='Main', module='main'):
    """A package that is written once per process."""
    p = _cache.get(source)
    if p is None:
        p = _cache[source] = scores.package(source, main=main, module=module)
    return p


def single(path, costs=None, revision=0, balances=None, **kw):
    return World({SELF: Contract(path, OWNER, **kw)}, costs or {}, revision, balances)


def calls(w, reqs, **kw):
    """reqs: (method, params[, overrides])"""
    out, res = run_requests(w, [Invoke(SELF, r[0], r[1], frm=CALLER, **(r[2] if len(r) > 2 else {})) for r in reqs],
                            **kw)
    return out, res


def need(ok, msg, *a):
    if not ok:
        raise Violation(msg % a if a else msg)


def same(exp, act, what):
    from .model import match
    if not match(exp, act):
        from .sim import where
        raise Violation('%s: %s' % (what, where(exp, act)))


def show(x):
    """repr() without the limit on the size of integers, which stays on for the
    code under test."""
    old = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    try:
        return repr(x)
    finally:
        sys.set_int_max_str_digits(old)
