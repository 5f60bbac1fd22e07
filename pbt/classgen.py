"""Generated contract classes: source text plus what follows from it."""
from hypothesis import strategies as st

from .wire import Addr, int_bytes

HEAD = '''from typing import *
from iconservice import *


def _m(self, tag):
    try:
        VarDB('ran', self.db, str).set(tag)
    except BaseException:
        pass


'''
ADDR_DEF = "Address.from_string('hx%s')" % ('ab' * 20)
BASE = ['int', 'str', 'bytes', 'bool', 'Address']
CODES = {'int': 1, 'str': 2, 'bytes': 3, 'bool': 4, 'Address': 5, "'Address'": 5}
DEFAULTS = {'int': [('0', b'\x00'), ('5', b'\x05'), ('-129', b'\xff\x7f'), ('2**70', int_bytes(2 ** 70)),
                    ('128', b'\x00\x80')],
            'str': [("''", b''), ("'é'", 'é'.encode()), ("'0x1'", b'0x1')],
            'bytes': [("b''", b''), ("b'\\x00'", b'\x00'), ("b'ab'", b'ab')],
            'bool': [('True', b'\x01'), ('False', b'\x00')],
            'Address': [(ADDR_DEF, b'\x00' + b'\xab' * 20), ('SYSTEM_SCORE_ADDRESS', b'\x01' + b'\x00' * 20)]}
FLAG_RO, FLAG_EXT, FLAG_PAY = 1, 2, 4


# ------------------------------------------------------------------- types
def strip(h):
    """(list depth, base hint) of a hint; None stands for no hint."""
    if h is None:
        return 0, 'str'
    for p, s in (('Optional[', ']'), ('Union[None, ', ']')):
        if h.startswith(p):
            return strip(h[len(p):-len(s)])
    if h.startswith('Union['):
        return strip(h[6:-len(', None]')])
    for p in ('List[', 'list['):
        if h.startswith(p):
            d, b = strip(h[5:-1])
            return d + 1, b
    return 0, h


def type_code(h):
    d, b = strip(h)
    return 0x10 * d + CODES.get(b, 8)


def fields_of(h, structs):
    d, b = strip(h)
    if b in CODES:
        return None
    return [field(n, t, structs) for n, t in structs[b]]


def field(n, t, structs):
    f = fields_of(t, structs)
    return [n, type_code(t), None] + ([f] if f is not None else [])


def base_hint():
    return st.sampled_from(BASE + ["'Address'"])


@st.composite
def hint(draw, structs=(), lists=True, optional=True):
    k = draw(st.integers(0, 11))
    if k <= 4 or not lists:
        h = draw(base_hint())
    elif k <= 6:
        h = draw(st.sampled_from(BASE))
        for _ in range(draw(st.integers(1, 3))):
            h = draw(st.sampled_from(['List[%s]', 'list[%s]'])) % h
    elif k <= 8 and structs:
        h = draw(st.sampled_from(structs))
        for _ in range(draw(st.integers(0, 2))):
            h = 'List[%s]' % h
    else:
        h = draw(base_hint())
    if optional and "'" not in h and draw(st.integers(0, 5)) == 0:
        # (quoted names are understood only when they stand alone)
        h = draw(st.sampled_from(['Optional[%s]', 'Union[%s, None]'])) % h
    return h


@st.composite
def structs(draw):
    """Structs built on earlier ones."""
    out = []
    free = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
        fields = []
        for j in range(draw(st.sampled_from([1, 2, 2, 3, 16]))):
            k = draw(st.integers(0, 7))
            if k >= 5 and free and sum(x[1].count('S') for x in fields) < 3:
                h = draw(st.sampled_from(free))
            else:
                h = draw(st.sampled_from(BASE))
            if draw(st.integers(0, 3)) == 0:
                h = 'List[%s]' % h
            if draw(st.integers(0, 5)) == 0:
                h = 'Optional[%s]' % h
            fields.append(('x%d' % j, h))
        name = 'S%d' % i
        out.append((name, fields))
        free.append(name)
    return out


@st.composite
def params(draw, structs=(), names='abcdefg', most=4, events=False):
    n = draw(st.integers(0, most))
    opt = draw(st.integers(0, n)) if draw(st.booleans()) else 0
    out = []
    for i in range(n):
        if events:
            h = draw(base_hint())
        else:
            h = draw(st.one_of(hint(structs), hint(structs), hint(structs), st.none()))
        default = None
        if i >= n - opt:
            d, b = strip(h)
            if d or b not in CODES or draw(st.integers(0, 3)) == 0:
                default = 'None'
            else:
                default = draw(st.sampled_from(DEFAULTS[b.strip("'")]))[0]
        out.append((names[i], h, default))
    return out


def default_bytes(h, src):
    if src is None or src == 'None':
        return None
    return dict(DEFAULTS[strip(h)[1].strip("'")])[src]


def inputs(ps, structs, event=False):
    out = []
    for n, h, d in ps:
        f = fields_of(h, structs)
        out.append([n, type_code(h), None if event else default_bytes(h, d)] + ([f] if f is not None else []))
    return out


# ----------------------------------------------------------------- members
# published attributes of the base class
FRAMEWORK = ['on_install', 'on_update', 'fallback', 'msg', 'address', 'tx', 'block', 'db', 'owner', 'icx', 'block_height',
             'now', 'call', 'revert', 'get_owner', 'create_interface_score', 'get_fee_sharing_proportion',
             'set_fee_sharing_proportion']
def member(name, decs=(), ps=(), ret=None, style='def', first='self', tail=''):
    return {'name': name, 'decs': list(decs), 'params': list(ps), 'ret': ret, 'style': style, 'first': first,
            'tail': tail}


EXT = ['external', 'external()', 'external(readonly=False)']
RO = ['external(readonly=True)']


def flags_of(decs):
    f = 0
    for d in decs:
        if d.startswith('external'):
            f |= FLAG_EXT
            if 'readonly=True' in d:
                f |= FLAG_RO
        elif d == 'payable':
            f |= FLAG_PAY
    return f


def is_event(m):
    return any(d.startswith('eventlog') for d in m['decs'])


def indexed_of(m):
    for d in m['decs']:
        if 'indexed=' in d:
            return int(d.split('=')[1].rstrip(')'))
    return 0


RETS = [None, None, 'None', 'int', 'str', 'bytes', 'bool', 'Address', "'Address'", 'list', 'dict', 'List[int]',
        'List[dict]', 'Dict[str, int]', 'Dict[str, List[int]]', 'list[str]', 'dict[str, int]']


def out_types(ret, structs):
    if ret in (None, 'None'):
        return []
    if ret in CODES:
        return [CODES[ret]]
    if ret.lower().startswith('list'):
        return [6]
    return [7]


NAMES = ['f0', 'f1', 'f2', 'transfer', 'getName', '_under', 'É', 'now', 'revert', 'call', 'x' * 60, 'a', 'run']


@st.composite
def members(draw, structs, names, most=5):
    out = []
    names = list(names)
    for _ in range(draw(st.integers(0, most))):
        if not names:
            break
        name = names.pop(draw(st.integers(0, len(names) - 1)))
        k = draw(st.integers(0, 13))
        ps = draw(params(structs))
        ret = draw(st.sampled_from(RETS + [s for s in structs]))
        if k <= 3:
            out.append(member(name, [draw(st.sampled_from(EXT))], ps, ret))
        elif k <= 5:
            out.append(member(name, RO, ps, ret))
        elif k == 6:
            d = [draw(st.sampled_from(EXT)), 'payable']
            if draw(st.booleans()):
                d.reverse()
            out.append(member(name, d, ps, ret))
        elif k == 7:
            out.append(member(name, ['payable'], ps, ret))
        elif k == 8:
            ps = draw(params((), events=True))
            i = draw(st.integers(0, min(3, len(ps))))
            d = draw(st.sampled_from(['eventlog', 'eventlog()'])) if i == 0 else 'eventlog(indexed=%d)' % i
            out.append(member(name, [d], ps))
        elif k == 9:
            out.append(member(name, [], draw(params(structs, most=2)), ret, draw(st.sampled_from(
                ['def', 'def', 'static', 'class', 'prop', 'attr']))))
        elif k == 10:
            out.append(member(name, [], [], None, 'def', tail='*args, **kwargs'))
        elif k == 11:
            out.append(member(name, ['interface'], draw(params((), most=2)), None))
        else:
            out.append(member(name, [], draw(params(structs, most=2)), ret))
    return out


@st.composite
def programs(draw, need_external=True):
    """Well-formed contracts."""
    ss = draw(structs())
    sn = [n for n, _ in ss]
    classes = []
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    mix = draw(st.sampled_from([0, 0, 0, 1]))
    if mix:
        classes.append({'name': 'Mixin', 'bases': [], 'members': draw(members(sn, NAMES, 3))})
    for i in range(n):
        bases = ['IconScoreBase'] if i == 0 else ['C%d' % (i - 1)]
        if i == n - 1 and mix:
            bases = draw(st.sampled_from([bases + ['Mixin'], ['Mixin'] + bases]))
        ms = draw(members(sn, NAMES, 5))
        for hook in ('on_install', 'on_update'):
            if i == 0 or draw(st.integers(0, 3)) == 0:
                ms.append(member(hook, [], draw(params(sn, most=3)) if draw(st.booleans()) else [],
                                 draw(st.sampled_from([None, 'None']))))
        k = draw(st.integers(0, 5))
        if k == 0:
            ms.append(member('fallback', ['payable'], [], draw(st.sampled_from([None, 'None']))))
        elif k == 1:
            ms.append(member('fallback', [], [], None))
        classes.append({'name': 'C%d' % i, 'bases': bases, 'members': ms})
    spec = {'structs': ss, 'classes': classes}
    if need_external and not any(flags_of(m['decs']) & FLAG_EXT for m in effective(spec).values()):
        # the last class has the last word
        ms = [m for m in classes[-1]['members'] if m['name'] != 'zz']
        ms.append(member('zz', ['external'], [('a', 'int', None)], None))
        classes[-1]['members'] = ms
    return spec


def source(spec):
    out = [HEAD]
    for n, fs in spec['structs']:
        out.append('class %s(TypedDict):\n' % n)
        for f, t in fs:
            out.append('    %s: %s\n' % (f, t))
        if not fs:
            out.append('    pass\n')
        out.append('\n\n')
    out.append(spec.get('extra', ''))
    for c in spec['classes']:
        out.append('class %s%s:\n' % (c['name'], '(%s)' % ', '.join(c['bases']) if c['bases'] else ''))
        if 'IconScoreBase' in c['bases'] and not c.get('no_init'):
            out.append('    def __init__(self, db: IconScoreDatabase) -> None:\n        super().__init__(db)\n\n')
        elif not c['members']:
            out.append('    pass\n')
        for m in c['members']:
            out.append(render(c['name'], m))
        out.append('\n\n')
    return ''.join(out)


def render(cls, m):
    tag = '%s.%s' % (cls, m['name'])
    if m['style'] == 'attr':
        return '    %s = 5\n\n' % m['name']
    out = []
    if m['style'] == 'static':
        out.append('    @staticmethod\n')
        args = []
    elif m['style'] == 'class':
        out.append('    @classmethod\n')
        args = ['cls']
    elif m['style'] == 'prop':
        out.append('    @property\n')
        args = [m['first']]
    else:
        args = [m['first']] if m['first'] else []
    for d in m['decs']:
        out.append('    @%s\n' % d)
    names = []
    if m['style'] != 'prop':
        for n, h, d in m['params']:
            args.append(n + (': ' + h if h is not None else '') + (' = ' + d if d is not None else ''))
            if n != '/':
                names.append(n)
    if m['tail']:
        args.append(m['tail'])
    out.append('    %s %s(%s)%s:\n' % ('def', m['name'], ', '.join(args), ' -> ' + m['ret'] if m['ret'] else ''))
    if m['style'] in ('def', 'prop') and m['first'] == 'self':
        out.append('        _m(self, %r)\n' % tag)
    out.append('        return [%s]\n\n' % ', '.join([repr(tag)] + names))
    return ''.join(out)


def effective(spec):
    """name -> member (with 'cls') as seen through the main class, using
    Python's own resolution order on stand-ins."""
    made = {'IconScoreBase': type('IconScoreBase', (object,), {'table': {
        n: dict(member(n, style='attr'), cls='IconScoreBase') for n in FRAMEWORK}})}
    for c in spec['classes']:
        d = {}
        for m in c['members']:
            n = m['name']
            d[n] = dict(m, cls=c['name'])
        made[c['name']] = type(c['name'], tuple(made[b] for b in c['bases']) or (object,), {'table': d})
    main = made[spec['classes'][-1]['name']]
    out = {}
    for k in reversed(main.__mro__):
        out.update(k.__dict__.get('table') or {})
    return out


def main_name(spec):
    return spec['classes'][-1]['name']


def api(spec):
    """The description a well-formed contract must give."""
    ss = dict(spec['structs'])
    out = []
    for n, m in effective(spec).items():
        if m['style'] != 'def':
            continue
        f = flags_of(m['decs'])
        ps = m['params']
        if n in ('on_install', 'on_update'):
            out.append([0, n, 0, sum(1 for p in ps if p[2] is None), inputs(ps, ss), []])
        elif is_event(m):
            out.append([2, n, 0, indexed_of(m), inputs(ps, ss, True), []])
        elif n == 'fallback':
            if f & FLAG_PAY:
                out.append([1, n, FLAG_PAY, 0, [], []])
        elif f & FLAG_EXT:
            out.append([0, n, f, sum(1 for p in ps if p[2] is None), inputs(ps, ss),
                        out_types(m['ret'], ss) if f & FLAG_RO else []])
    return out
