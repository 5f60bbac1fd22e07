"""Reference model of a contract execution.

`Sim` executes the operation lists of `interp.SOURCE` the way the published
behaviour of the executor and the node prescribes: eager step metering,
storage slots derived independently, nested frames, roll-back on failure.
It shares no code with the executor.
"""
import hashlib
import json

from . import secp, wire
from .wire import Addr, int_bytes, int_from


class _Any(object):
    def __repr__(self):
        return 'ANY'


ANY = _Any()
MARK = chr(167) + chr(167)


def match(exp, act):
    """Type-strict equality where ANY in `exp` matches everything."""
    if exp is ANY:
        return True
    if isinstance(exp, (list, tuple)):
        return isinstance(act, (list, tuple)) and len(exp) == len(act) and all(match(a, b) for a, b in zip(exp, act))
    if isinstance(exp, dict):
        return isinstance(act, dict) and exp.keys() == act.keys() and all(match(exp[k], act[k]) for k in exp)
    return type(exp) is type(act) and exp == act


# ------------------------------------------------------------- exceptions
class IcErr(Exception):
    def __init__(self, code, msg=ANY):
        Exception.__init__(self, code, msg)
        self.code, self.msg = code, msg

    @property
    def is_score(self):
        return self.code >= 32


class Oos(IcErr):
    def __init__(self):
        IcErr.__init__(self, 10)


class PyErr(Exception):
    """An ordinary exception; `base` when not derived from Exception."""
    def __init__(self, base=False):
        Exception.__init__(self)
        self.base = base


class Stop(Exception):
    def __init__(self, v):
        Exception.__init__(self)
        self.value = v


class _Unsupported(object):
    def __repr__(self):
        return 'UNSUPPORTED'


UNSUPPORTED = _Unsupported()


def encodable(v):
    if v is UNSUPPORTED:
        return False
    if v is ANY or v is None or isinstance(v, (bool, int, bytes, Addr)):
        return True
    if isinstance(v, str):
        try:
            v.encode('utf-8')
            return True
        except UnicodeEncodeError:
            return False
    if isinstance(v, (list, tuple)):
        return all(encodable(x) for x in v)
    if isinstance(v, dict):
        return all(isinstance(k, str) and encodable(k) and encodable(x) for k, x in v.items())
    return False


# ---------------------------------------------------------------- storage
TAGS = {'arr': b'\x00', 'dict': b'\x01', 'var': b'\x02'}


def rlp(b):
    n = len(b)
    if n == 1 and b[0] < 0x80:
        return b
    if n <= 55:
        return bytes([0x80 + n]) + b
    ln = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0xb7 + len(ln)]) + ln + b


def key_bytes(k):
    if isinstance(k, bool):
        return b'\x01' if k else b'\x00'
    if isinstance(k, int):
        return int_bytes(k)
    if isinstance(k, str):
        return k.encode('utf-8')
    if isinstance(k, bytes):
        return k
    if isinstance(k, Addr):
        return k.raw
    raise IcErr(6)


value_bytes = key_bytes


def slot(kind, name, keys=(), subs=()):
    b = TAGS[kind] + rlp(key_bytes(name))
    for s in subs:
        b += rlp(s)
    for k in keys:
        b += rlp(key_bytes(k))
    return hashlib.sha3_256(b).digest()


def default_of(t):
    return {'int': 0, 'str': '', 'bool': False, 'bytes': None, 'Address': None}[t]


def decode(t, b):
    if b is None:
        return default_of(t)
    if t == 'int':
        return int_from(b)
    if t == 'bool':
        return bool(int_from(b))
    if t == 'str':
        try:
            return b.decode('utf-8')
        except UnicodeDecodeError:
            raise PyErr()
    if t == 'bytes':
        return b
    # written as another type
    if len(b) == 20:
        return Addr(b'\0' + b)
    if len(b) != 21:
        return None
    if b[0] > 1:
        raise PyErr()
    return Addr(b)


PYT = {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'Address': Addr}


# -------------------------------------------------------------- step meter
class Meter(object):
    def __init__(self, costs, limit):
        self.c, self.limit, self.used = costs, limit, 0
        self.v0 = costs.get('schema', 0) == 0
        self.charges = []       # used after every charge, for boundary tests
        self.peaks = []         # `used` each charge needed, relative to the root request
        self.base_used = 0

    def cost(self, n):
        return self.c.get(n, 0)

    def base(self, n):
        return 0 if self.v0 else self.c.get(n, 0)

    def charge(self, n):
        if self.used + n > self.limit:
            self.used = self.limit
            raise Oos()
        self.used += n
        self.charges.append(self.used)
        if n > 0:
            self.peaks.append(self.base_used + self.used)

    def apply(self, base, per, count):
        n = self.base(base) + self.cost(per) * count
        if n:
            self.charge(n)

    def get(self, size):
        self.apply('getBase', 'get', size)

    def put(self, new, old):
        if self.v0:
            self.charge((self.cost('set') if old is None else self.cost('replace')) * new)
            return
        n = self.base('setBase') + self.cost('set') * new
        if old is not None:
            n += (self.base('setBase') + self.base('deleteBase')) // 2 - self.base('setBase') + \
                self.cost('delete') * old
        self.charge(n)

    def delete(self, old):
        if old is not None:
            self.apply('deleteBase', 'delete', old)

    def log(self, size):
        if self.v0:
            self.apply('', 'eventLog', size)
        else:
            self.apply('logBase', 'log', size)


# ------------------------------------------------------------------ frames
EVENTS = {'E0': (0, []),
          'E1': (1, [('a', 'int', None)]),
          'E2': (1, [('a', 'str', None), ('b', 'bytes', None)]),
          'E3': (2, [('a', 'Address', None), ('b', 'int', None), ('c', 'str', ('dflt',))]),
          'E4': (3, [('a', 'bool', None), ('b', 'bytes', None), ('c', 'Address', None), ('d', 'int', None),
                     ('e', 'str', None)]),
          'E5': (0, [('a', 'str', None), ('b', 'int', (None,))])}

EXTERNAL = {'run', 'ro', 'pay'}
PAYABLE = {'pay', 'fallback'}
READONLY = {'ro'}


class MFrame(object):
    def __init__(self, sim, to, method, params, frm, value, limit, query, parent, tx):
        self.sim, self.to, self.method, self.params = sim, to, method, params
        self.frm, self.value, self.query, self.parent = frm, value, query, parent
        self.meter = Meter(sim.costs, limit)
        if parent is not None:
            self.meter.base_used = parent.meter.base_used + parent.meter.used
        self.readonly = query or method in READONLY
        self.fee = 0
        self.n = 0
        self.pending = {}
        self.msgs = []          # CALL / EVENT / SETFEEPCT / RESULT in order
        self.children = []
        self.tx = tx
        self.writes = 0
        self.depth = 0 if parent is None else parent.depth + 1
        self.ops_done = 0


class Sim(object):
    def __init__(self, contracts, costs, revision=0, balances=None, tx=None, trace_ops=None):
        """contracts: {Addr: owner Addr}"""
        self.owner = dict(contracts)
        self.store = {a: {} for a in contracts}
        self.costs, self.revision = costs, revision
        self.balances = dict(balances or {})
        self.events = []
        self.tx = dict(tx or {})
        self.frames = []
        self.logs = []
        self.stats = {}
        self.hook = None        # (frame, to, value, limit, method, params) -> (status, steps, value) or None

    def hit(self, name):
        self.stats[name] = self.stats.get(name, 0) + 1

    def snap(self):
        return {a: dict(s) for a, s in self.store.items()}, dict(self.balances), len(self.events)

    def restore(self, s):
        self.store = {a: dict(x) for a, x in s[0].items()}
        self.balances = dict(s[1])
        del self.events[s[2]:]

    # ---------------------------------------------------------- invocation
    def invoke(self, to, method, params, frm, value, limit, query=False, tx=None, parent=None, snap=None):
        info = dict(self.tx)
        info.update(tx or {})
        f = MFrame(self, to, method, params, frm, value, limit, query, parent, info)
        self.frames.append(f)
        if parent is not None:
            parent.children.append(f)
        snap = snap or self.snap()
        try:
            try:
                val = self.body(f)
            except Stop as e:
                val = e.value
            status = 0
        except Oos:
            status, val = 10, ANY
        except IcErr as e:
            status, val = e.code, e.msg
            self.logs.append((f.depth, 'icon', val, e.is_score))
        except PyErr:
            status, val = 1, ANY
            self.logs.append((f.depth, 'system', None, None))
        if f.fee > 0:
            f.msgs.append(('SETFEEPCT', f.fee))
        steps = f.meter.used
        if not encodable(val):
            self.hit('unencodable result')
            status, steps, val = 1, limit, ANY
        f.msgs.append(('RESULT', status, steps, val))
        f.status, f.steps, f.val = status, steps, val
        self.hit('status %d' % status)
        if status != 0:
            self.restore(snap)
        return f

    def body(self, f):
        m = f.method
        if m not in ('fallback', 'on_install', 'on_update') and m not in EXTERNAL:
            raise IcErr(3)
        if m == 'fallback':
            self.vput(f, slot('dict', 'fb', [f.frm]), int_bytes(f.value))
            return None
        if f.value > 0 and m not in PAYABLE:
            raise IcErr(4)
        p = f.params
        if m in ('on_install', 'on_update'):
            if len(p) > 1:
                raise PyErr()
            if not p or p[0] is None:
                return None
            prog = p[0]
        else:
            if len(p) != 1:
                raise PyErr()
            prog = p[0]
        r = self.prog(f, prog)
        return r if m in EXTERNAL else None

    def prog(self, f, prog):
        out = []
        try:
            for op in prog:
                out.append(self.op(f, op))
        except Stop as e:
            return e.value
        return out

    def op(self, f, op):
        f.ops_done += 1
        self.hit('op ' + op[0])
        return getattr(self, 'op_' + op[0])(f, *op[1:])

    # ---------------------------------------------------------- primitives
    def st(self, f):
        return self.store[f.to]

    def vget(self, f, s):
        v = self.st(f).get(s)
        f.meter.get(len(v) if v is not None else 0)
        return v

    def writable(self, f):
        if f.readonly:
            self.hit('write refused')
            raise IcErr(9)

    def vput(self, f, s, b):
        self.writable(f)
        old = self.st(f).get(s)
        if b == b'':
            self.hit('empty put')
            f.meter.delete(len(old) if old is not None else None)
            self.st(f).pop(s, None)
        else:
            self.hit('put over' if old is not None else 'put new')
            f.meter.put(len(b), len(old) if old is not None else None)
            self.st(f)[s] = b
        f.writes += 1

    def vdel(self, f, s):
        self.writable(f)
        old = self.st(f).get(s)
        self.hit('delete old' if old is not None else 'delete absent')
        f.meter.delete(len(old) if old is not None else None)
        self.st(f).pop(s, None)
        f.writes += 1

    # ------------------------------------------------------------- control
    def op_try(self, f, ops, kind):
        try:
            return ['ok', [self.op(f, o) for o in ops]]
        except IcErr as e:
            if e.is_score:
                if kind == 'exc':
                    raise
                return ['err', e.code, e.msg]
            if kind != 'all':
                raise
            return ['err', e.code, e.msg]
        except PyErr as e:
            if e.base:
                if kind != 'all':
                    raise
                return ['err', -2, '']
            if kind == 'icon':
                raise
            return ['err', -1, '']

    def op_seq(self, f, ops):
        return [self.op(f, o) for o in ops]

    def op_ret(self, f, v):
        raise Stop(v)

    def op_echo(self, f, v):
        return v

    # ---------------------------------------------------------- containers
    @staticmethod
    def slot(c, keys=()):
        if c[1] is None:
            raise IcErr(6)
        return slot(c[0], c[1], keys, c[3])

    def op_vset(self, f, c, v):
        self.vput(f, self.slot(c), value_bytes(v))

    def op_vget(self, f, c):
        return decode(c[2], self.vget(f, self.slot(c)))

    def op_vrm(self, f, c):
        self.vdel(f, self.slot(c))

    def op_dset(self, f, c, keys, v):
        if len(keys) != c[4]:
            raise IcErr(8)
        s = self.slot(c, keys)
        self.vput(f, s, value_bytes(v))

    def op_dget(self, f, c, keys):
        s = self.slot(c, keys)
        if len(keys) != c[4]:
            return UNSUPPORTED
        return decode(c[2], self.vget(f, s))

    def op_drm(self, f, c, keys, form):
        if len(keys) != c[4]:
            raise IcErr(8)
        self.vdel(f, self.slot(c, keys))

    def op_din(self, f, c, keys):
        return self.vget(f, self.slot(c, keys)) is not None

    def op_diter(self, f, c, keys):
        raise IcErr(8)

    def asize(self, f, c):
        v = self.vget(f, self.slot(c))
        return int_from(v) if v is not None else 0

    def op_aput(self, f, c, v):
        n = self.asize(f, c)
        self.vput(f, self.slot(c, [n]), value_bytes(v))
        self.vput(f, self.slot(c), int_bytes(n + 1))

    def op_apop(self, f, c):
        n = self.asize(f, c)
        if n == 0:
            return None
        v = self.aelem(f, c, self.asize(f, c), n - 1)
        self.vdel(f, self.slot(c, [n - 1]))
        self.vput(f, self.slot(c), int_bytes(n - 1))
        return v

    def aelem(self, f, c, n, i):
        if not isinstance(i, int):
            raise IcErr(6)
        if i < 0:
            i += n
        if not 0 <= i < n:
            self.hit('array out of range')
            raise IcErr(6)
        return decode(c[2], self.vget(f, self.slot(c, [i])))

    def op_aget(self, f, c, i, form):
        return self.aelem(f, c, self.asize(f, c), i)

    def op_afirst(self, f, c):
        return self.aelem(f, c, self.asize(f, c), 0)

    def op_aset(self, f, c, i, v):
        if not isinstance(i, int):
            raise IcErr(6)
        n = self.asize(f, c)
        if i < 0:
            i += n
        if not 0 <= i < n:
            self.hit('array out of range')
            raise IcErr(6)
        self.vput(f, self.slot(c, [i]), value_bytes(v))

    def op_alen(self, f, c):
        return self.asize(f, c)

    def op_aiter(self, f, c, k):
        n = self.asize(f, c)
        out = []
        for i in range(n):
            v = self.aelem(f, c, n, i)
            if len(out) >= k:
                break
            out.append(v)
        return out

    def op_ain(self, f, c, v):
        n = self.asize(f, c)
        if type(v) is not PYT[c[2]]:
            for i in range(n):
                if self.aelem(f, c, n, i) == v:
                    return True
            return False
        if n == 0:
            return False
        b = value_bytes(v)
        cnt = size = 0
        found = False
        for i in range(n):
            e = self.st(f).get(self.slot(c, [i]))
            cnt += 1
            if e is not None:
                size += len(e)
                if e == b:
                    found = True
                    break
        self.hit('scan found' if found else 'scan missed')
        f.meter.charge(f.meter.base('getBase') * cnt + f.meter.cost('get') * size)
        return found

    # --------------------------------------------------------------- calls
    def op_call(self, f, form, to, value, method, args, kwargs):
        if form == 'if':
            if value:
                if value < 0:
                    raise IcErr(6)
                f.pending[to] = value
            value = f.pending.pop(to, 0)
        else:
            args = None
        if kwargs:
            params = dict(kwargs)
            if args:
                params['.'] = list(args)
        elif args is not None:
            params = list(args)
        else:
            params = []
        return self.message(f, to, value, method, params)

    def op_callm(self, f, form, to, method, args, kwargs):
        r = self.op_call(f, form, to, 0, method, args if form == 'if' else None, kwargs)
        return [r, args, kwargs]

    def op_icx(self, f, to, value):
        if value < 0:
            raise IcErr(6)
        f.pending[to] = value

    def op_xfer(self, f, to, amount):
        self.message(f, to, amount, None, [])
        return None

    def op_send(self, f, to, amount):
        try:
            self.message(f, to, amount, None, [])
            return True
        except (IcErr, PyErr):
            self.hit('send failed')
            return False

    def message(self, f, to, value, method, params):
        if method is None or method == 'fallback':
            method = ''
        limit = f.meter.limit - f.meter.used
        f.msgs.append(('CALL', to, value, limit, method, params))
        self.hit('call')
        r = self.hook(f, to, value, limit, method, params) if self.hook else None
        status, steps, val = r if r is not None else self.node_call(f, to, value, limit, method, params)
        f.meter.used += steps
        f.meter.charges.append(f.meter.used)
        if status == 0:
            return val
        self.hit('call failed')
        raise IcErr(status, val)

    def node_call(self, f, to, value, limit, method, params):
        """What the node does with a CALL (see node.Node.default_call)."""
        if value < 0:
            return 1, 0, 'negative value'
        me = f.to
        bal = self.balances.get(me, 0)
        if value > bal or (value > 0 and f.readonly):
            return 11, 0, 'OutOfBalance'
        if to not in self.store:
            if to.is_contract:
                return 2, 0, 'ContractNotFound'
            if method:
                return 2, 0, 'NoContract'
            self.balances[me] = bal - value
            self.balances[to] = self.balances.get(to, 0) + value
            return 0, 0, None
        snap = self.snap()
        self.balances[me] = bal - value
        self.balances[to] = self.balances.get(to, 0) + value
        m = method or 'fallback'
        if isinstance(params, dict):
            params = sequential(params, ['prog'])
        self.hit('nested')
        if to == me:
            self.hit('re-entrant')
        g = self.invoke(to, m, params, me, value, limit, f.query or m in READONLY, parent=f, snap=snap)
        v = g.val
        if g.status != 0 and v is not ANY and not isinstance(v, str):
            v = ''
        return g.status, g.steps, v

    def op_bal(self, f, a):
        return self.balances.get(a, 0)

    # -------------------------------------------------------------- others
    def op_ev(self, f, name, args, kwargs):
        indexed, decl = EVENTS[name]
        if len(args) + len(kwargs) > len(decl):
            raise IcErr(5)
        vals = []
        for i, (n, t, d) in enumerate(decl):
            if i < len(args):
                if n in kwargs:
                    raise IcErr(5)
                v = args[i]
            elif n in kwargs:
                v = kwargs[n]
            elif d is not None:
                v = d[0]
            else:
                raise IcErr(5)
            if v is not None and not isinstance(v, PYT[t]):
                raise IcErr(5)
            vals.append(v)
        if f.readonly:
            self.hit('event refused')
            raise IcErr(5)
        sig = '%s(%s)' % (name, ','.join(t for _, t, _ in decl))
        bs = [None if v is None else value_bytes(v) for v in vals]
        f.meter.log(len(sig) + sum(len(b) for b in bs if b is not None))
        ev = ([sig.encode()] + bs[:indexed], bs[indexed:])
        f.msgs.append(('EVENT',) + ev)
        self.events.append((f.to,) + ev)
        f.writes += 1

    def op_fee(self, f, n):
        if f.query or n < 0 or n > 100:
            self.hit('fee refused')
            raise IcErr(5)
        f.fee = n

    def op_getfee(self, f):
        return f.fee

    def op_log(self, f, level, text, tag):
        if not isinstance(text, str) or not isinstance(tag, (str, type(None))):
            raise PyErr()
        self.logs.append((f.depth, level, text if tag is not None else MARK + text, tag))

    def op_logx(self, f, level, expr, tag):
        try:
            text = '%s' % (eval(expr),)
        except Exception:
            raise PyErr()
        self.logs.append((f.depth, level, text, tag))

    def op_login(self, f, level, text, tag):
        self.logs.append((f.depth, level, text, tag))

    def op_ctx(self, f):
        t = f.tx
        return [f.frm, f.value, f.to, self.owner[f.to], t['T.hash'], t['T.index'], t['T.from'], t['T.timestamp'],
                t['T.nonce'], t['B.height'], t['B.timestamp'], t['B.height'], t['B.timestamp']]

    def op_revert(self, f, form, msg, code):
        if form in (2, 3):
            msg, code = (msg if form == 2 else None), 0
        if form == 5:
            code = 0
        if form in (0, 2, 3, 4):
            if not isinstance(code, int):
                try:
                    code = int(code)
                except (ValueError, TypeError):
                    raise IcErr(6)
            msg = str(msg)
        else:
            if not isinstance(code, int):
                raise IcErr(6)
            if msg is None:
                msg = ANY
        raise IcErr(max(32, min(999, 32 + code)), msg)

    def op_raise(self, f, kind, msg):
        if kind in ('retobj', 'retset', 'retfloat', 'retdict', 'retnest', 'retloop', 'retsurr'):
            raise Stop(UNSUPPORTED)
        if kind == 'revsurr':
            raise IcErr(32, UNSUPPORTED)
        raise PyErr(kind in ('base', 'exit', 'kbd', 'gen', 'strbad2'))

    def op_inc(self, f):
        f.n += 1
        return f.n

    def api(self, f, step):
        f.meter.charge(step)

    def op_sha3(self, f, b):
        return self._hash(f, b, hashlib.sha3_256)

    def op_sha2(self, f, b):
        return self._hash(f, b, hashlib.sha256)

    def _hash(self, f, b, h):
        if not isinstance(b, bytes):
            raise IcErr(6)
        c = f.meter.cost('apiCall')
        self.api(f, c + c * ((len(b) + 31) // 32) // 10)
        return h(b).digest()

    def op_rk(self, f, h, s, comp):
        self.api(f, f.meter.cost('apiCall') * 70000 // 1000)
        if not (isinstance(h, bytes) and len(h) == 32 and isinstance(s, bytes) and len(s) == 65):
            return None
        p = secp.recover(h, s)
        return None if p is None else secp.encode(p, comp)

    def op_rkd(self, f, h, s):
        return self.op_rk(f, h, s, True)

    def op_ca(self, f, k):
        if not isinstance(k, bytes) or len(k) not in (33, 65):
            return None
        c = f.meter.cost('apiCall')
        self.api(f, c * (15000 if len(k) == 33 else 1500) // 1000)
        if len(k) == 33:
            if k[0] not in (2, 3):
                return None
            p = secp.decode(k)
            if p is None:
                return None
            k = secp.encode(p, False)
        elif k[0] != 4:
            return None
        return Addr(b'\x00' + hashlib.sha3_256(k[1:]).digest()[-20:])

    def op_jd(self, f, o):
        compact = bool(self.revision & 256)
        try:
            s = json.dumps(o, separators=(',', ':')) if compact else json.dumps(o)
        except (TypeError, ValueError):
            raise PyErr()
        if compact:
            c = f.meter.cost('apiCall') * 5000 // 1000
            self.api(f, c + c * len(s.encode()) // 100)
        return s

    def op_jl(self, f, s):
        if not isinstance(s, str):
            return None
        if self.revision & 256:
            c = f.meter.cost('apiCall') * 4000 // 1000
            self.api(f, c + c * len(s.encode()) // 100)
        try:
            return json.loads(s)
        except (ValueError, RecursionError):
            raise PyErr()


def sequential(params, names):
    """The node turns named parameters of a call into positional ones."""
    pos = list(params.get('.', []))
    out = []
    for i, n in enumerate(names):
        out.append(pos[i] if i < len(pos) else params.get(n))
    return out
