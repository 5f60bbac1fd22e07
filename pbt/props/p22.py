"""The code an execution runs, and the object it runs on.

Cases are several packages, sound and broken ones, whose modules, classes and
helpers share names, and a history of requests over them; results say which
package's class and helpers ran and what the object remembered."""
import hashlib
import json
import os
import sys

from hypothesis import strategies as st

from .. import scores
from ..core import Facet
from ..kit import CALLER, need
from ..node import Contract, GetApi, Invoke, Violation, World, run_session
from ..wire import Addr

ADDRS = [Addr('cx' + '%02x' % (0xa0 + i) * 20) for i in range(4)]
OWNER = Addr('hx' + '51' * 20)

MODULES = ['main', 'main', 'app', 'score', 'sub.main', 'main.main', 'json', 'util']
CLASSES = ['Main', 'Main', 'Score', 'IconScoreBase2', 'Other']
HELPERS = ['util', 'util', 'json', 'helper', 'lib.util', 'lib.deep.util', 'types', 'main2']

MAIN = '''
from iconservice import *
import json as std
%(imports)s
HERE = %(tag)r


class %(decoy)s(IconScoreBase):
    KIND = 'decoy'

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    @external
    def run(self, ops: str) -> str:
        return 'decoy'


class %(main)s(%(base)s):
    KIND = 'main'

    def __init__(self, db):
        super().__init__(db)
        self.items = []
        %(init)s

    def on_install(self):
        pass

    def on_update(self):
        pass

    @external(readonly=True)
    def api_%(short)s(self) -> int:
        return 0

    %(ext)s
    def run(self, ops: str) -> str:
        out = []
        for op in std.loads(ops):
            k = op[0]
            if k == 'who':
                out.append([HERE, type(self).__name__, self.KIND, str(self.address), %(helpers)s])
            elif k == 'lazy':
                out.append(self.lazy())
            elif k == 'set':
                setattr(self, op[1], op[2])
                self.items.append(op[2])
            elif k == 'get':
                out.append([getattr(self, op[1], None), list(self.items)])
            elif k == 'fail':
                revert('x')
            elif k == 'deep':
                self.deep(op[1], op[2])
            elif k == 'call':
                try:
                    out.append(std.loads(self.call(Address.from_string(op[1]), 'run', {'ops': std.dumps(op[2])})))
                except BaseException:
                    out.append('err')
        return std.dumps(out)

    def deep(self, n, to):
        if n:
            return self.deep(n - 1, to)
        return self.call(Address.from_string(to), 'run', {'ops': '[["lazy"]]'})

    def lazy(self):
        %(lazy)s


class Plain:
    def __init__(self, db):
        pass

    def run(self, ops):
        return '[]'
'''

FALLS = ['ValueError("x")', 'SystemExit(3)', 'SystemExit()', 'KeyboardInterrupt()', 'GeneratorExit()', 'MemoryError()',
         'StopIteration()', 'IconScoreException("x")', 'type("Odd", (BaseException,), {"__str__": lambda s: 1 / 0})()']

BROKEN = ['missing', 'missing', 'nojson', 'badjson', 'jsonlist', 'jsonnum', 'jsondir', 'nomain', 'mainnum', 'relative',
          'noscore', 'nomodule', 'nofile', 'noclass', 'syntax', 'encoding', 'helpersyntax', 'nohelper', 'notclass',
          'plain', 'noexternal', 'recursion'] + \
    ['raise%d' % i for i in range(len(FALLS))] + ['init%d' % i for i in range(len(FALLS))] + ['package%d' % i for i in
                                                                                            range(len(FALLS))]


class Package(object):
    def __init__(self, i, spec):
        self.spec = spec
        self.i = i
        self.name = '0x' + hashlib.sha256(b'%d' % scores.number()).hexdigest()
        self.path = os.path.join(scores.root(), self.name)
        self.tag = 'package%d' % i
        self.present = False

    @property
    def sound(self):
        return self.present and (self.spec['broken'] is None or self.spec['broken'] == 'late')

    def helper_tags(self):
        return ['%s.%s.%s' % (self.tag, h, v) for h, v in self.spec['helpers']]

    def write(self):
        s = self.spec
        b = s['broken']
        if b == 'missing':
            return
        self.present = True
        files = {}
        imports = []
        exprs = []
        depth = s['module'].count('.')
        up = '.' * (depth + 1)
        for j, (h, how) in enumerate(s['helpers']):
            parts = h.split('.')
            f = h.replace('.', '/') + '.py'
            files.setdefault(f, '')
            for k in range(1, len(parts)):
                files.setdefault('/'.join(parts[:k]) + '/__init__.py', '')
            full = '%s.%s.%s' % (self.tag, h, how)
            if how == 'from':
                files[f] += 'def tag%d():\n    return %r\n' % (j, full)
                imports.append('from %s%s import tag%d' % (up, h, j))
                exprs.append('tag%d()' % j)
            elif how == 'module':
                files[f] += 'TAG%d = %r\n' % (j, full)
                pk, m = ('.'.join(parts[:-1]), parts[-1])
                imports.append('from %s%s import %s as mod%d' % (up, pk, m, j))
                exprs.append('mod%d.TAG%d' % (j, j))
            else:
                # through a third module
                files[f] += 'TAG%d = %r\n' % (j, full)
                files['via%d.py' % j] = 'from .%s import TAG%d as THE\n' % (h, j)
                imports.append('from %svia%d import THE as THE%d' % (up, j, j))
                exprs.append('THE%d' % j)
        files['late.py'] = 'LATE = %r\n' % (self.tag + ' late')
        base = 'IconScoreBase'
        if s['inherit']:
            files['base.py'] = ('from iconservice import *\n\n\nclass Base(IconScoreBase):\n'
                                '    def __init__(self, db):\n        super().__init__(db)\n')
            imports.append('from %sbase import Base' % up)
            base = 'Base'
        cls = s['cls']
        init = 'pass'
        if b and b.startswith('init'):
            init = 'raise ' + FALLS[int(b[4:])]
        if b and b.startswith('raise'):
            imports.append('raise ' + FALLS[int(b[5:])])
        if b == 'recursion':
            imports.append('def f(x):\n    return f(x + 1)\n\n\nf(0)')
        if b == 'nohelper':
            imports.append('from %sabsent import x' % up)
        if b == 'helpersyntax':
            files['bad.py'] = 'def f(:\n'
            imports.append('from %sbad import x' % up)
        src = MAIN % {'imports': '\n'.join(imports), 'tag': self.tag, 'main': cls, 'short': self.tag,
                      'decoy': 'Main' if cls != 'Main' else 'Score', 'base': base, 'init': init,
                      'ext': '' if b == 'noexternal' else '@external', 'helpers': '[%s]' % ', '.join(exprs),
                      'lazy': 'from %slate import LATE\n        return LATE' % up}
        if b == 'noexternal':
            src = src.replace('@external(readonly=True)\n    def api_', 'def api_')
        if b == 'syntax':
            src += '\nif if\n'
        mod = s['module'].replace('.', '/')
        for k in range(1, depth + 1):
            files.setdefault('/'.join(mod.split('/')[:k]) + '/__init__.py', '')
        files['__init__.py'] = '' if s['package'] else None
        if b and b.startswith('package'):
            files['__init__.py'] = 'from iconservice import *\nraise ' + FALLS[int(b[7:])] + '\n'
        pj = {'version': '1.0.0', 'main_module': s['module'], 'main_score': cls}
        if s['legacy']:
            pj['main_file'] = pj.pop('main_module')
        if s['note']:
            pj['description'] = s['note']
        if b == 'nofile':
            src, pj['main_' + ('file' if s['legacy'] else 'module')] = None, 'absent'
        elif b == 'noclass':
            pj['main_score'] = 'Absent'
        elif b == 'notclass':
            pj['main_score'] = 'HERE'
        elif b == 'plain':
            pj['main_score'] = 'Plain'
        elif b == 'noscore':
            del pj['main_score']
        elif b == 'nomain' or b == 'nomodule':
            pj.pop('main_module', None)
            pj.pop('main_file', None)
        elif b == 'mainnum':
            pj['main_score'] = 5
        elif b == 'relative':
            pj['main_module'] = '.' + s['module']
        elif b == 'jsonlist':
            pj = '[]'
        elif b == 'jsonnum':
            pj = '5'
        elif b == 'badjson':
            pj = '{"main_module": '
        elif b in ('nojson', 'jsondir'):
            pj = False
        if isinstance(pj, dict) and s['note']:
            pj = json.dumps(pj, ensure_ascii=False)
        scores.package(src, main=cls, module=s['module'], files=files, name=self.name, pkg_json=pj)
        if b == 'jsondir':
            os.makedirs(os.path.join(self.path, 'package.json'))
        if b == 'encoding':
            with open(os.path.join(self.path, mod + '.py'), 'ab') as f:
                f.write(b'\nX = "\xff\xfe"\n')


@st.composite
def package_specs(draw, sound=False):
    broken = None
    if not sound and draw(st.integers(0, 9)) < 4:
        broken = draw(st.sampled_from(BROKEN + ['late'] * 8))
    helpers = draw(st.lists(st.tuples(st.sampled_from(HELPERS), st.sampled_from(['from', 'module', 'via'])), max_size=3))
    module = draw(st.sampled_from(MODULES))
    # a helper must not be the main module itself
    helpers = [(h, v) for h, v in helpers if h != module]
    return {'module': module, 'cls': draw(st.sampled_from(CLASSES)), 'helpers': helpers, 'broken': broken,
            'inherit': draw(st.booleans()), 'package': draw(st.integers(0, 4)) > 0, 'legacy': draw(st.integers(0, 4)) == 0,
            'note': draw(st.sampled_from(['', '', 'plain', '\uc774\ub984 \u00e9']))}


def op_lists(depth, n):
    one = [st.just(('who',)), st.just(('who',)), st.just(('lazy',)),
           st.tuples(st.just('set'), st.sampled_from('ab'), st.integers(0, 99)),
           st.tuples(st.just('get'), st.sampled_from('ab')),
           st.tuples(st.just('get'), st.sampled_from('ab'))]
    if depth:
        call = st.tuples(st.just('call'), st.integers(0, 3), st.deferred(lambda: op_lists(depth - 1, 4)))
        one += [call, call, call]
    return st.lists(st.one_of(*one), min_size=1, max_size=n).flatmap(
        lambda o: st.sampled_from([o, o, o, o + [('fail',)]]))


@st.composite
def cases(draw):
    pk = [draw(package_specs(sound=True))] + draw(st.lists(package_specs(), min_size=1, max_size=4))
    n = len(pk)
    where = draw(st.lists(st.integers(0, n - 1), min_size=4, max_size=4))
    req = st.one_of(
        st.tuples(st.just('inv'), st.integers(0, 3), op_lists(2, 5)),
        st.tuples(st.just('inv'), st.integers(0, 3), op_lists(2, 5)),
        st.tuples(st.just('inv'), st.integers(0, 3), op_lists(2, 5)),
        st.tuples(st.just('api'), st.integers(0, n - 1)),
        st.tuples(st.just('put'), st.integers(0, n - 1)),
        st.tuples(st.just('deep'), st.integers(0, 3), st.integers(600, 990), st.integers(0, 3)),
        st.tuples(st.just('upd'), st.integers(0, 3), st.integers(0, n - 1)))
    return {'pk': pk, 'where': where, 'reqs': draw(st.lists(req, min_size=2, max_size=9))}


class Broke(Exception):
    pass


def run_model(pkgs, where, a, ops, rec):
    p = pkgs[where[a]]
    if not p.sound:
        raise Broke()
    attrs, items, out = {}, [], []
    for op in ops:
        if op[0] == 'who':
            out.append([p.tag, p.spec['cls'], 'main', str(ADDRS[a]), p.helper_tags()])
        elif op[0] == 'lazy':
            out.append(p.tag + ' late')
        elif op[0] == 'set':
            attrs[op[1]] = op[2]
            items.append(op[2])
        elif op[0] == 'get':
            out.append([attrs.get(op[1]), list(items)])
        elif op[0] == 'fail':
            raise Broke()
        else:
            rec.hit('nested')
            if where[op[1]] == where[a]:
                rec.hit('nested into the same package')
            try:
                out.append(run_model(pkgs, where, op[1], op[2], rec))
            except Broke:
                out.append('err')
    return out


def wire_ops(ops):
    return [[o[0], str(ADDRS[o[1]]), wire_ops(o[2])] if o[0] == 'call' else list(o) for o in ops]


def check(case, rec):
    pkgs = [Package(i, s) for i, s in enumerate(case['pk'])]
    where = list(case['where'])
    used = {}

    def script(w):
        for r in case['reqs']:
            if r[0] == 'put':
                p = pkgs[r[1]]
                if p.spec['broken'] == 'late' and not p.present:
                    p.write()
                    rec.hit('stored later')
            elif r[0] == 'upd':
                where[r[1]] = r[2]
                w.contracts[ADDRS[r[1]]].code = pkgs[r[2]].path
                rec.hit('update')
            elif r[0] == 'api':
                p = pkgs[r[1]]
                rep = yield GetApi(p.path)
                if p.sound:
                    need(rep.status == 0, 'API request for a sound package %s fails with %s', p.spec, rep.status)
                    names = sorted(m[1].decode() if isinstance(m[1], bytes) else m[1] for m in rep.api)
                    need(names == ['api_' + p.tag, 'on_install', 'on_update', 'run'], 'API of %s is that of %s', p.tag, names)
                else:
                    need(rep.status != 0, 'API request for a broken package (%s) succeeds', p.spec['broken'])
                used[r[1]] = used.get(r[1], 0) + 1
            elif r[0] == 'deep':
                # whether the call fits on the stack is left open, only later requests matter
                yield Invoke(ADDRS[r[1]], 'run', [json.dumps([['deep', r[2], str(ADDRS[r[3]])]])], frm=CALLER)
                rec.hit('call from deep inside')
            else:
                p = pkgs[where[r[1]]]
                try:
                    exp = run_model(pkgs, where, r[1], r[2], rec)
                except Broke:
                    exp = None
                rep = yield Invoke(ADDRS[r[1]], 'run', [json.dumps(wire_ops(r[2]))], frm=CALLER)
                what = 'run of %s on %s' % (r[2], p.spec)
                if exp is None:
                    need(rep.status != 0, '%s: succeeds', what)
                    rec.hit('failed request' if p.sound else 'broken: %s' % p.spec['broken'])
                else:
                    need(rep.status == 0, '%s: fails with %s %r', what, rep.status, rep.value)
                    act = json.loads(rep.value)
                    need(act == json.loads(json.dumps(exp)), '%s: %s instead of %s', what, act, exp)
                    rec.hit('good request')
                used[where[r[1]]] = used.get(where[r[1]], 0) + 1

    try:
        for p in pkgs:
            if p.spec['broken'] != 'late':
                p.write()
        w = World({a: Contract(pkgs[case['where'][i]].path, OWNER, readonly=(), names={'run': ['ops']})
                   for i, a in enumerate(ADDRS)})
        run_session(w, script(w))
    finally:
        for p in pkgs:
            scores.discard(p.path)
        for m in [m for m in sys.modules if m.startswith('0x')]:
            del sys.modules[m]
    if len(used) > 1:
        rec.hit('several packages')
    if any(n > 1 for n in used.values()):
        rec.hit('package used again')
    if len(used) > 1 and any(n > 1 for n in used.values()):
        rec.nontrivial((sorted(map(repr, case['pk'])), case['reqs']))


FACETS = [
    Facet('histories', cases, check, 1400, 60000,
          'several packages are used and one of them more than once; distinct by packages and requests'),
]
