"""Verification of packages: programs put together from allowed and forbidden
constructs, wrapped into each other."""
import os
import sys

from hypothesis import strategies as st

from .. import scores
from ..core import Facet
from ..kit import CALLER, OWNER, SELF, need
from ..node import Contract, GetApi, Invoke, World, run_session

MARK = '<<package code ran>>'

# (statement, only possible at module level)
GOOD_IMPORTS = [('from iconservice import *', 1), ('import iconservice', 0), ('import iconservice as lib', 0),
                ('from . import helper', 0), ('from .helper import VALUE', 0), ('from .helper import VALUE as v, other', 0),
                ('from .helper import *', 1), ('from .pkg import inner', 0), ('from .pkg.inner import VALUE', 0),
                ('from .pkg import inner as pkg, VALUE', 0), ('from .helper import (VALUE,\n    other)', 0)]
BAD_IMPORTS = [('import os', 0), ('import sys as iconservice', 0), ('from os import path', 0), ('from os import *', 1),
               ('import os.path', 0), ('import os.path as iconservice', 0), ('import iconservice, os', 0),
               ('import os, iconservice', 0), ('import iconservice.helper', 0), ('import iconservice.os as x', 0),
               ('from iconservice.helper import VALUE', 0), ('from iconservice.helper import *', 1), ('import pyexec', 0),
               ('from pyexec.iconscore.icon_score_base import ServiceEngine', 0), ('from pyexec import *', 1),
               ('from iconservice import os', 0), ('from iconservice import Nothing', 0), ('import helper', 0),
               ('from helper import VALUE', 0), ('from pkg.inner import VALUE', 0), ('import importlib', 0),
               ('import builtins', 0), ('from builtins import open', 0), ('import json', 0), ('import iconservic', 0),
               ('import iconservice2', 0), ('import Iconservice', 0), ('import service', 0), ('import _', 0),
               ('from service import x', 0), ('from con import *', 1), ('from typing import List', 0),
               ('from __main__ import main', 0), ('import random', 0), ('from iconservice import abstractmethod', 0)]
NAMES = ['eval', 'exec', 'compile', '__import__']
USES = ['%s("1")', 'f = %s', '[%s]', 'print(%s)', 'x = lambda: %s', '[%s for i in ()]', '[i for i in () if %s]',
        '{i: j for i, j in ((1, %s),)}', 'f"{%s}"', '__builtins__.%s', 'x = lambda a=%s: 0', 'len((1, (2, %s)))',
        '(%s if x else 1)', 'y = 1 and %s', '(z := %s)', 'x = lambda: (lambda: (lambda: %s))', '{**{"a": %s}}',
        '[*[%s]]', 'not %s', 'a = b = %s', 'd = {}; d[%s] = 1', '(%s).x = 1', 'assert %s', 'class K:\n    x: %s = 1',
        'def f(a=%s): pass', 'def f(a: %s): pass', 'def f() -> %s: pass', 'class K(%s): pass', 'class K: x = %s',
        'class K:\n    def m(self):\n        return %s', 'def f():\n    def g():\n        return %s\n    return g',
        'def f():\n    global %s\n    %s = 1', 'async def f():\n    return %s', 'def f():\n    yield %s',
        'try:\n    pass\nexcept %s:\n    pass', 'with %s:\n    pass', 'for i in %s:\n    pass', '@%s\ndef f(): pass',
        'def f[T: %s](): pass', 'type X = %s', 'class K[T: (int, %s)]: pass', 'match 1:\n    case 1 if %s:\n        pass',
        'while %s:\n    break', 'raise %s', 'del %s', 'def %s(): pass', 'class %s: pass', 'for %s in (): pass',
        'from .helper import VALUE as %s', 'from .helper import %s', 'import iconservice as %s']
WIDE = {'eval': '\uff45val', 'exec': 'ex\uff45c', 'compile': '\uff43ompile', '__import__': '__\uff49mport__'}
# innocent code which resembles the forbidden
GOOD_USES = ['x = "import os; eval(1)"', '# import os\npass', '"""import os\neval"""', 'evaluate = 1', 'x = b"exec"',
             'def execute(): pass', 'imports = [1]', 'compiled = 2', 'x = f"eval {1}"', 'x = getattr(1, "real")',
             'x = open', 'class Eval: pass', 'x = [i for i in range(3)]', 'x = 10 ** 30', '\u00e9val = 1',
             'x = (lambda a: a)(1)', 'def f():\n    yield 1', 'async def f():\n    pass', 'x: "int" = 1', 'pass',
             'x = {"compile": 1}', 'for i in ():\n    pass\nelse:\n    x = 1', 'def f(*, evals=1): pass', 'type X = int',
             'def f[T](): pass', 'match 1:\n    case 1:\n        pass', 'import_os = 1', '__imports__ = 1']

WRAP = ['def w%d():\n{}', 'class W%d:\n{}', 'class W%d:\n    def m(self):\n{{}}', 'if x:\n{}', 'if x:\n    pass\nelse:\n{}',
        'try:\n    pass\nexcept ValueError:\n{}', 'try:\n    pass\nfinally:\n{}', 'for i in ():\n{}', 'while x:\n{}',
        'async def w%d():\n{}', 'def w%d():\n    def v():\n{{}}\n    return v', 'class W%d:\n    class V:\n{{}}',
        'class W%d:\n    @property\n    def p(self):\n        if self:\n{{{}}}', 'with open("x"):\n{}',
        'def w%d(a, *b, c=1, **d):\n    for i in b:\n{{}}', 'match 1:\n    case _:\n{{}}', 'def w%d():\n    try:\n{{}}\n    except ValueError:\n        raise',
        'def w%d[T](a: T):\n{}']


def indent(text, by):
    return '\n'.join(' ' * by + l if l else l for l in text.split('\n'))


def wrap(text, kinds):
    for n, k in enumerate(kinds):
        w = WRAP[k]
        by = (len(w) - len(w.lstrip('{'))) or 0
        i = w.index('{')
        level = 0
        while w[i + level] == '{':
            level += 1
        head, tail = w[:i], w[i + 2 * level:]
        if '%d' in head:
            head = head.replace('%d', str(n))
        text = head + indent(text, 4 * level) + tail
    return text


HELPER = 'VALUE = 1\nother = 2\n'
MAIN = '''
class Main(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    @external
    def seven(self) -> int:
        return 7
'''
PLACES = ['main.py', 'main.py', '__init__.py', 'helper.py', 'pkg/__init__.py', 'pkg/inner.py', 'tests/test_main.py',
          'a/b/c/deep.py', 'odd-name.py', 'dir.with.dots/x.py', 'unused.py', 'eval.py', '\uc774\ub984.py', 'setup.py',
          '__main__.py', 'pkg/helper.py', '__pycache__/x.py', 'x.y.py']
OTHERS = ['README.md', 'data.json', 'x.py.txt', 'main.py~', 'Makefile', 'pkg/notes', 'py', '.gitignore', 'x.pyx',
          'so.txt', 'pyc']
COMPILED = ['x.pyc', 'helper2.so', 'pkg/y.abi3.so', '__pycache__/x.pyc', 'z.cpython-312-x86_64-linux-gnu.so', 'pkg/main.pyc']


@st.composite
def constructs(draw, bad):
    top = draw(st.booleans())
    k = draw(st.integers(0, 9))
    if bad:
        if k < 5:
            text, alone = draw(st.sampled_from(BAD_IMPORTS))
            kind = 'import'
        else:
            name = draw(st.sampled_from(NAMES))
            use = draw(st.sampled_from(USES))
            alone = 0
            if k == 9:
                name = WIDE[name]
            text = use.replace('%s', name)
            kind = 'name'
            # a local variable of that name would be another matter
            alone = 0 if use in LOADS else 1
    else:
        kind = 'good'
        if k < 6:
            text, alone = draw(st.sampled_from(GOOD_IMPORTS))
        else:
            text, alone = draw(st.sampled_from(GOOD_USES)), 0
    wraps = []
    if not alone and not top:
        wraps = draw(st.lists(st.integers(0, len(WRAP) - 1), min_size=1, max_size=4))
    return kind, text, wraps


# uses which only read the name
LOADS = [u for u in USES if not (u.startswith(('def f():\n    global', 'del ', 'def %s', 'class %s', 'for %s', 'from ',
                                               'import ')))]


@st.composite
def cases(draw):
    files = {}
    bad = draw(st.sampled_from([0, 1, 1, 1, 1, 2]))
    items = []
    n = draw(st.integers(0, 5))
    for i in range(n):
        items.append((draw(st.sampled_from(PLACES)), draw(constructs(False))))
    what = None
    if bad:
        if draw(st.integers(0, 11)) == 0:
            what = ('compiled', draw(st.sampled_from(COMPILED)))
        else:
            for i in range(bad):
                items.insert(draw(st.integers(0, len(items))), (draw(st.sampled_from(PLACES)), draw(constructs(True))))
    pads = draw(st.lists(st.tuples(st.sampled_from(PLACES), st.integers(200, 600)), max_size=1)) \
        if draw(st.integers(0, 2)) == 0 else []
    style = draw(st.sampled_from(['', '', '', 'bom', 'crlf', 'latin', 'tabs']))
    return {'items': items, 'compiled': what and what[1], 'pads': pads, 'style': style,
            'others': draw(st.lists(st.sampled_from(OTHERS), max_size=2, unique=True)),
            'star': draw(st.integers(0, 3)) > 0}


def build(case):
    body = {'main.py': '', '__init__.py': '', 'helper.py': '', 'pkg/__init__.py': '', 'pkg/inner.py': ''}
    for f, k in case['pads']:
        body.setdefault(f, '')
        body[f] += ''.join('X%d = "c%d"\n' % (i, i) for i in range(k))
        if k % 2:
            body[f] += 'def padded():\n' + ''.join('    X%d, "d%d"\n    yield 1.%d\n' % (i, i, i) for i in range(k))
    for f, (kind, text, wraps) in case['items']:
        body.setdefault(f, '')
        # star imports are only possible at the top, all else is never executed
        if 'import *' not in text:
            text = 'if len(__name__) < 0:\n' + indent(wrap(text, wraps), 4)
        body[f] += text + '\n'
    out = {}
    for f, t in body.items():
        head = 'print(%r)\n' % MARK
        if 'helper' in f or f.startswith('pkg/'):
            head += HELPER
        if f == 'main.py':
            head += 'from iconservice import *\n' if case['star'] else \
                'import iconservice\nIconScoreBase = iconservice.IconScoreBase\nexternal = iconservice.external\n'
            t += MAIN
        out[f] = head + t
    return out


def write(case):
    files = build(case)
    p = scores.package(None, files={})
    style = case['style']
    for f, t in files.items():
        full = os.path.join(p, f)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if style == 'tabs':
            t = t.replace('    ', '\t')
        if style == 'crlf':
            t = t.replace('\n', '\r\n')
        if style == 'latin' and all(ord(c) < 256 for c in t):
            data = b'# -*- coding: latin-1 -*-\n' + t.encode('latin-1')
        elif style == 'bom':
            data = b'\xef\xbb\xbf' + t.encode()
        else:
            data = t.encode()
        with open(full, 'wb') as o:
            o.write(data)
    for f in case['others']:
        full = os.path.join(p, f)
        if not os.path.exists(full):
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'w') as o:
                o.write('import os\neval\n')
    if case['compiled']:
        full = os.path.join(p, case['compiled'])
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as o:
            o.write(b'\xcb\r\r\n' + bytes(12))
    return p, files


def check(case, rec):
    p, files = write(case)
    bad = [(f, c) for f, c in case['items'] if c[0] != 'good']
    for f, t in files.items():
        compile(t, f, 'exec')
    w = World({SELF: Contract(p, OWNER, readonly=())})

    def script():
        for turn in range(2):
            rep = yield GetApi(p)
            ran = MARK in sys.stdout.getvalue()
            if bad or case['compiled']:
                need(rep.status != 0, 'package with %r is accepted', bad or case['compiled'])
                need(not ran, 'code of the refused package (%r) ran', bad or case['compiled'])
            else:
                need(rep.status == 0, 'package which obeys the rules is refused (%s): %r', rep.status, case)
                need(ran, 'accepted package was not loaded')
                r = yield Invoke(SELF, 'seven', [], frm=CALLER)
                need(r.status == 0 and r.value == 7, 'accepted package does not work: %r', r)

    try:
        run_session(w, script(), verify=True)
    finally:
        scores.discard(p)
    rec.hit('refused' if bad or case['compiled'] else 'accepted')
    for f, c in bad:
        rec.hit('forbidden %s, %s' % (c[0], 'nested' if c[2] else 'at the top'))
        if f not in ('main.py', '__init__.py'):
            rec.hit('in a file main does not need')
    if case['compiled']:
        rec.hit('compiled module')
    if case['pads']:
        rec.hit('hundreds of names')
    if bad or case['compiled'] or case['items']:
        rec.nontrivial((case['items'], case['compiled'], case['pads'], case['style'], case['star']))


FACETS = [Facet('programs', cases, check, 1500, 60000,
                'the package has at least one generated construct; distinct by constructs and places')]
