"""Facets, case recording and the search driver shared by all checks."""
import hashlib
import json
import os
import time

from . import scores
from .node import HarnessError, Violation
from .wire import Addr


class Facet(object):
    """One generated-input search.

    strategy: zero-argument function returning a Hypothesis strategy of plain
    literals; check(case, rec) raises Violation when the property is broken.
    """
    def __init__(self, name, strategy, check, quick=200, thorough=20000, rule=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Rec(object):
    """What a case exercised."""
    def __init__(self):
        self.labels = {}
        self.keys = []
        self.known = []

    def hit(self, label, n=1):
        self.labels[label] = self.labels.get(label, 0) + n

    def hits(self, stats):
        for k, v in stats.items():
            self.hit(k, v)

    def nontrivial(self, key):
        """The case is non-trivial; `key` tells distinct ones apart."""
        self.keys.append(key)

    def known_finding(self, fid):
        self.known.append(fid)


def literal(case):
    return repr(case)


def from_literal(text):
    return eval(text, {'__builtins__': {}, 'Addr': Addr, 'inf': float('inf'), 'nan': float('nan'),
                       'bytearray': bytearray, 'set': set})


def digest(x):
    return hashlib.sha256(repr(x).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.known = {}

    def add(self, case, rec):
        self.evaluations += 1
        fresh = False
        for k in rec.keys:
            d = digest(k)
            if d not in self.keys:
                self.keys.add(d)
                fresh = True
        if fresh and len(self.samples) < 40:
            t = literal(case)
            if len(t) <= 1500:
                self.samples.append(t)
        for k, v in rec.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k in rec.known:
            self.known[k] = self.known.get(k, 0) + 1

    def dump(self):
        s = sorted(self.samples, key=len)
        return {'evaluations': self.evaluations, 'keys': sorted(self.keys), 'labels': self.labels,
                'samples': s[len(s) // 2:len(s) // 2 + 4], 'known': self.known}


def search(facet, count, seed, deadline, stats, mutate=True):
    """Runs the search; returns None or (case, message, paths) of a shrunk failure.

    mutate: let Hypothesis also repeat parts of a case elsewhere in it (equal
    keys, equal operands); without it every case is drawn afresh."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    if not mutate:
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    fail = []
    skipped = [0]

    def body(case):
        if not fail and time.monotonic() > deadline:
            skipped[0] += 1
            return
        rec = Rec()
        paths = scores.state()
        try:
            facet.check(case, rec)
        except Violation as e:
            fail.append((case, str(e), paths))
            stats.evaluations += 1
            raise
        except HarnessError:
            raise
        except Exception as e:
            import traceback
            raise HarnessError('%s on case %s\n%s' % (e, literal(case)[:2000], traceback.format_exc()))
        stats.add(case, rec)

    body = hypothesis.given(facet.strategy())(body)
    body = hypothesis.seed(seed)(body)
    body = settings(max_examples=count, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    phases=(Phase.generate, Phase.shrink))(body)
    try:
        body()
    except Violation:
        pass
    except HarnessError:
        raise
    except Exception as e:
        if not fail:
            raise HarnessError('%s: %s' % (type(e).__name__, e))
    if fail:
        return fail[-1]
    return None
