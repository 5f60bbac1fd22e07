"""The interpreter contract: executes an operation list it gets as a parameter
and returns what it observed.  `model.RefEE` is its reference model."""

SOURCE = '''
from iconservice import *

TAG = 'Interp'
MARK = chr(167) + chr(167)
_T = {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'Address': Address}


class Peer(InterfaceScore):
    @interface
    def run(self, prog): pass

    @interface
    def ro(self, prog): pass

    @interface
    def pay(self, prog): pass

    @interface
    def other(self, a, b=None, c=None): pass

    @interface
    def nothing(self): pass


class Stop(Exception):
    pass


class MyRevert(IconScoreException):
    pass


class Interp(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._n = 0
        self._cache = {}
        self._peers = {}

    def on_install(self, prog: str = None) -> None:
        super().on_install()
        if prog is not None:
            self._exec(prog)

    def on_update(self, prog: str = None) -> None:
        super().on_update()
        if prog is not None:
            self._exec(prog)

    @eventlog
    def E0(self): pass

    @eventlog(indexed=1)
    def E1(self, a: int): pass

    @eventlog(indexed=1)
    def E2(self, a: str, b: bytes): pass

    @eventlog(indexed=2)
    def E3(self, a: Address, b: int, c: str = 'dflt'): pass

    @eventlog(indexed=3)
    def E4(self, a: bool, b: bytes, c: Address, d: int, e: str): pass

    @eventlog
    def E5(self, a: str, b: int = None): pass

    @external
    def run(self, prog: str):
        return self._exec(prog)

    @external(readonly=True)
    def ro(self, prog: str) -> list:
        return self._exec(prog)

    @payable
    @external
    def pay(self, prog: str):
        return self._exec(prog)

    @payable
    def fallback(self):
        DictDB('fb', self.db, int)[self.msg.sender] = self.msg.value

    def hidden(self, prog: str):
        VarDB('hidden', self.db, int).set(1)
        return 'hidden'

    # ------------------------------------------------------------------
    def _exec(self, prog):
        out = []
        try:
            for op in prog:
                out.append(self._op(op))
        except Stop as e:
            return e.args[0]
        return out

    def _cont(self, c):
        key = repr(c)
        o = self._cache.get(key)
        if o is None:
            kind, name, typ, subs = c[:4]
            db = self.db
            for s in subs:
                db = db.get_sub_db(s)
            if kind == 'var':
                o = VarDB(name, db, _T[typ])
            elif kind == 'arr':
                o = ArrayDB(name, db, _T[typ])
            else:
                o = DictDB(name, db, _T[typ], depth=c[4])
            self._cache[key] = o
        return o

    def _peer(self, to):
        p = self._peers.get(to)
        if p is None:
            p = self._peers[to] = self.create_interface_score(to, Peer)
        return p

    def _op(self, op):
        return getattr(self, '_op_' + op[0])(*op[1:])

    def _op_try(self, ops, kind):
        try:
            return ['ok', [self._op(o) for o in ops]]
        except Stop:
            raise
        except IconScoreException as e:
            if kind == 'exc':
                raise
            return ['err', int(e.code), e.message]
        except Exception as e:
            if kind == 'icon':
                raise
            return ['err', -1, '']
        except BaseException as e:
            if kind != 'all':
                raise
            if hasattr(e, 'message') and hasattr(e, 'code'):
                return ['err', int(e.code), e.message]
            return ['err', -2, '']

    def _op_seq(self, ops):
        return [self._op(o) for o in ops]

    def _op_ret(self, v):
        raise Stop(v)

    def _op_echo(self, v):
        return v

    # containers
    def _op_vset(self, c, v):
        self._cont(c).set(v)

    def _op_vget(self, c):
        return self._cont(c).get()

    def _op_vrm(self, c):
        self._cont(c).remove()

    def _d(self, c, keys):
        d = self._cont(c)
        for k in keys[:-1]:
            d = d[k]
        return d, keys[-1]

    def _op_dset(self, c, keys, v):
        d, k = self._d(c, keys)
        d[k] = v

    def _op_dget(self, c, keys):
        d, k = self._d(c, keys)
        return d[k]

    def _op_drm(self, c, keys, form):
        d, k = self._d(c, keys)
        if form:
            del d[k]
        else:
            d.remove(k)

    def _op_din(self, c, keys):
        d, k = self._d(c, keys)
        return k in d

    def _op_diter(self, c, keys):
        d, k = self._d(c, list(keys) + [0])
        return [x for x in d]

    def _op_aput(self, c, v):
        self._cont(c).put(v)

    def _op_apop(self, c):
        return self._cont(c).pop()

    def _op_aget(self, c, i, form):
        a = self._cont(c)
        return a[i] if form else a.get(i)

    def _op_afirst(self, c):
        return self._cont(c).get()

    def _op_aset(self, c, i, v):
        self._cont(c)[i] = v

    def _op_alen(self, c):
        return len(self._cont(c))

    def _op_aiter(self, c, n):
        out = []
        for v in self._cont(c):
            if len(out) >= n:
                break
            out.append(v)
        return out

    def _op_ain(self, c, v):
        return v in self._cont(c)

    # calls
    def _op_call(self, form, to, value, method, args, kwargs):
        if form == 'if':
            p = self._peer(to)
            if value:
                p = p.icx(value)
            return getattr(p, method)(*args, **kwargs)
        if form == 'gen':
            return self.call(to, method, kwargs, value)
        raise Exception(form)

    def _op_callm(self, form, to, method, args, kwargs):
        # the arguments as the contract sees them afterwards
        if form == 'if':
            r = getattr(self._peer(to), method)(*args, **kwargs)
        else:
            r = self.call(to, method, kwargs)
        return [r, args, kwargs]

    def _op_icx(self, to, value):
        self._peer(to).icx(value)

    def _op_xfer(self, to, amount):
        return self.icx.transfer(to, amount)

    def _op_send(self, to, amount):
        return self.icx.send(to, amount)

    def _op_bal(self, a):
        return self.icx.get_balance(a)

    # others
    def _op_ev(self, name, args, kwargs):
        return getattr(self, name)(*args, **kwargs)

    def _op_fee(self, n):
        self.set_fee_sharing_proportion(n)

    def _op_getfee(self):
        return self.get_fee_sharing_proportion()

    def _op_log(self, level, text, tag):
        # the mark tells these messages from those of the executor
        if tag is None:
            getattr(Logger, level)(MARK + text)
        else:
            getattr(Logger, level)(text, MARK + tag)

    def _op_logx(self, level, expr, tag):
        getattr(Logger, level)(eval(expr), MARK + tag)

    def _op_login(self, level, text, tag):
        try:
            raise ValueError(text)
        except ValueError as e:
            getattr(Logger, level)(e, MARK + tag)

    def _op_ctx(self):
        return [self.msg.sender, self.msg.value, self.address, self.owner, self.tx.hash, self.tx.index,
                self.tx.origin, self.tx.timestamp, self.tx.nonce, self.block_height, self.now(),
                self.block.height, self.block.timestamp]

    def _op_revert(self, form, msg, code):
        if form == 0:
            revert(msg, code)
        elif form == 1:
            raise IconScoreException(msg, code)
        elif form == 2:
            revert(msg)
        elif form == 3:
            revert()
        elif form == 4:
            self.revert(msg, code)
        elif form == 5:
            raise MyRevert(msg)
        elif form == 6:
            raise MyRevert(msg, index=code)

    def _op_raise(self, kind, msg):
        if kind == 'base':
            raise BaseException(msg)
        if kind == 'exit':
            raise SystemExit(msg)
        if kind == 'kbd':
            raise KeyboardInterrupt(msg)
        if kind == 'gen':
            raise GeneratorExit(msg)
        if kind == 'rec':
            return self._op_raise(kind, msg)
        if kind == 'zero':
            return 1 // 0
        if kind == 'attr':
            return self.no_such_thing
        if kind == 'name':
            return no_such_name
        if kind == 'assert':
            assert False, msg
        if kind == 'key':
            return {}[msg]
        if kind == 'type':
            return len(5)
        if kind == 'stop':
            raise StopIteration(msg)
        if kind == 'value':
            raise ValueError(msg)
        if kind == 'strbad':
            class Bad(Exception):
                def __str__(self):
                    raise ValueError('str')
            raise Bad(msg)
        if kind == 'strbad2':
            class Bad2(BaseException):
                def __str__(self):
                    raise Bad2()
                __repr__ = __str__
            raise Bad2(msg)
        if kind == 'retobj':
            raise Stop(object())
        if kind == 'retset':
            raise Stop({1, 2})
        if kind == 'retfloat':
            raise Stop(1.5)
        if kind == 'retdict':
            raise Stop({1: 2})
        if kind == 'retnest':
            raise Stop([1, {'a': object()}])
        if kind == 'retloop':
            x = []
            x.append(x)
            raise Stop(x)
        if kind == 'retsurr':
            raise Stop(chr(0xd800))
        if kind == 'revsurr':
            revert(chr(0xdfff))
        raise Exception(msg)

    def _op_inc(self):
        self._n += 1
        return self._n

    def _op_sha3(self, b):
        return sha3_256(b)

    def _op_sha2(self, b):
        return sha_256(b)

    def _op_rk(self, h, s, c):
        return recover_key(h, s, c)

    def _op_rkd(self, h, s):
        return recover_key(h, s)

    def _op_ca(self, k):
        return create_address_with_key(k)

    def _op_jd(self, o):
        return json_dumps(o)

    def _op_jl(self, s):
        return json_loads(s)
'''
