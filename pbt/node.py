"""A synchronous, in-memory stand-in for the blockchain node.

The executor is started through its real entry point (``python -m pyexec``)
with the socket replaced by `FakeSocket`.  Every byte it writes is decoded at
once and answered the way the node answers, and every protocol rule the node
relies on is checked while doing so.
"""
import io
import logging
import os
import runpy
import signal
import sys
import tempfile
import warnings

from . import wire
from .wire import Addr

VERSION, INVOKE, RESULT, GETVALUE, SETVALUE, CALL, EVENT, GETINFO, GETBALANCE, GETAPI, LOG, CLOSE = range(12)
SETFEEPCT, CONTAINS = 15, 16
NAMES = {VERSION: 'VERSION', INVOKE: 'INVOKE', RESULT: 'RESULT', GETVALUE: 'GETVALUE', SETVALUE: 'SETVALUE',
         CALL: 'CALL', EVENT: 'EVENT', GETINFO: 'GETINFO', GETBALANCE: 'GETBALANCE', GETAPI: 'GETAPI', LOG: 'LOG',
         CLOSE: 'CLOSE', SETFEEPCT: 'SETFEEPCT', CONTAINS: 'CONTAINS'}

SUCCESS, SYSTEM_FAILURE, OUT_OF_BALANCE = 0, 1, 11
MAX_MESSAGES = 60000


class Violation(Exception):
    """The property is broken on the case being run."""


class NodeAbort(BaseException):
    """Stops the executor after a violation; never part of the protocol."""


class Invoke(object):
    def __init__(self, to, method, params=(), frm=Addr('hx' + '0a' * 20), value=0, limit=10 ** 12, query=False,
                 trace=False, tx=None, code=None, raw_params=None, info_extra=None):
        self.to, self.method, self.params, self.frm = to, method, params, frm
        self.value, self.limit, self.query, self.trace = value, limit, query, trace
        self.tx = tx            # overrides for transaction/block info
        self.code = code        # override of the package path
        self.info_extra = info_extra


class GetApi(object):
    def __init__(self, code):
        self.code = code


class Frame(object):
    def __init__(self, req, parent):
        self.req = req
        self.parent = parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.msgs = []          # messages of this frame, in order
        self.children = []
        self.reply = None
        self.snapshot = None
        self.readonly = False
        self.plan = []          # what is left to do before its call is answered

    def names(self, *only):
        return [m for m in self.msgs if not only or m[0] in only]


class Contract(object):
    def __init__(self, code, owner=None, readonly=('ro',), names=None):
        self.code = code
        self.names = names or {}    # method -> parameter names
        self.owner = owner
        self.readonly = set(readonly)
        self.store = {}


DEFAULT_TX = {'B.timestamp': 1600000000000000, 'B.height': 1000, 'T.hash': b'\x77' * 32, 'T.index': 3,
              'T.from': Addr('hx' + '0b' * 20), 'T.timestamp': 1599999999000000, 'T.nonce': 7}


class World(object):
    def __init__(self, contracts=None, step_costs=None, revision=0, balances=None):
        self.contracts = contracts or {}
        self.step_costs = step_costs or {}
        self.revision = revision
        self.balances = dict(balances or {})
        self.events = []
        self.tx = dict(DEFAULT_TX)
        self.call_hook = None   # (node, frame, call) -> None | (status, steps, value)

    def snap(self):
        return ({a: dict(c.store) for a, c in self.contracts.items()}, dict(self.balances), len(self.events))

    def restore(self, s):
        for a, st in s[0].items():
            self.contracts[a].store = dict(st)
        self.balances = dict(s[1])
        del self.events[s[2]:]


class Reply(object):
    """What the node learnt from one top-level request."""
    def __init__(self, frame, status, steps=None, value=None, api=None):
        self.frame, self.status, self.steps, self.value, self.api = frame, status, steps, value, api

    def __repr__(self):
        return 'Reply(status=%s steps=%s value=%r)' % (self.status, self.steps, self.value)


class Node(object):
    def __init__(self, world, script, chunks=None):
        self.world = world
        self.script = script        # generator yielding requests
        self.chunks = chunks
        self.ci = 0
        self.un = wire.Unpacker()
        self.out = []               # queued messages (bytes) not yet delivered
        self.frames = []
        self.dead = None
        self.version = None
        self.logs = []              # (depth, level, flag, text)
        self.transcript = []        # every message from the executor, decoded
        self.raw = bytearray()      # everything it wrote
        self.sent = []              # every message to the executor
        self.closed = False
        self.close_sent = False
        self.count = 0
        self.started = False
        self.roots = []

    # ------------------------------------------------------------ plumbing
    def fail(self, msg):
        if self.dead is None:
            self.dead = msg
        raise NodeAbort(msg)

    def _check_alive(self):
        if self.dead is not None:
            raise NodeAbort(self.dead)
        if self.closed:
            self.fail('executor used the connection after closing it')

    def sendall(self, data):
        self._check_alive()
        self.un.feed(bytes(data))
        self.raw += data
        try:
            for m in self.un:
                try:
                    self.on_message(m)
                except (TypeError, ValueError, KeyError, IndexError, AttributeError) as e:
                    self.fail('malformed message %s (%s: %s)' % (repr(m)[:300], type(e).__name__, e))
        except wire.WireError as e:
            self.fail('undecodable message from executor: %s' % e)

    def recv(self, n):
        self._check_alive()
        if not self.out:
            if self.un.buf:
                self.fail('executor waits while its last message is incomplete')
            if self.frames:
                self.fail('executor waits for a message the node does not owe (hang) in %s; last messages %s' % (
                    self.frames[-1].req.__class__.__name__, [m[0] for m in self.frames[-1].msgs[-5:]]))
            self.advance()
        if self.chunks:
            k = self.chunks[self.ci % len(self.chunks)]
            self.ci += 1
            want = max(1, min(n, k))
            buf = b''
            while self.out and len(buf) < want:
                h = self.out[0]
                t = want - len(buf)
                buf += h[:t]
                if len(h) > t:
                    self.out[0] = h[t:]
                else:
                    self.out.pop(0)
            return buf
        h = self.out[0]
        if len(h) > n:
            self.out[0] = h[n:]
            return h[:n]
        self.out.pop(0)
        return h

    def send(self, msg, data):
        self.sent.append((NAMES[msg], data))
        self.out.append(wire.pack([msg, data]))

    # ------------------------------------------------------------- session
    def advance(self, reply=None):
        """Executor is idle: hand it the next request."""
        if self.close_sent:
            self.fail('executor reads after CLOSE')
        try:
            if not self.started:
                self.started = True
                req = next(self.script)
            else:
                req = self.script.send(self.last_reply)
        except StopIteration:
            self.close_sent = True
            self.send(CLOSE, None)
            return
        except Violation as e:
            self.fail(str(e))
        except NodeAbort:
            raise
        self.begin(req, None)

    def begin(self, req, parent):
        f = Frame(req, parent)
        f.snapshot = self.world.snap()
        if parent is not None:
            parent.children.append(f)
        else:
            self.roots.append(f)
        self.frames.append(f)
        if isinstance(req, GetApi):
            self.send(GETAPI, req.code)
            return f
        c = self.world.contracts.get(req.to)
        f.readonly = req.query or (c is not None and req.method in c.readonly)
        flag = (1 if req.query else 0) | (2 if req.trace else 0)
        info = dict(self.world.tx)
        info.update(req.tx or {})
        info['Revision'] = self.world.revision
        info['StepCosts'] = self.world.step_costs
        info['C.owner'] = c.owner if c else None
        if req.info_extra:
            info.update(req.info_extra)
        params = wire.enc_typed(req.params if isinstance(req.params, dict) else list(req.params)) \
            if req.params is not None else [0, None]
        code = req.code if req.code is not None else c.code
        self.send(INVOKE, [code, flag, req.frm.raw if req.frm is not None else None, req.to.raw,
                           wire.int_bytes(req.value), wire.int_bytes(req.limit), req.method, params,
                           wire.enc_typed(info), b'\x00' * 20, len(self.sent), None])
        return f

    # ------------------------------------------------------------ messages
    def on_message(self, m):
        self.count += 1
        if self.count > MAX_MESSAGES:
            self.fail('executor keeps sending messages (more than %d)' % MAX_MESSAGES)
        if not isinstance(m, list) or len(m) != 2 or isinstance(m[0], bool) or not isinstance(m[0], int):
            self.fail('malformed message %r' % (m,))
        msg, data = m
        if self.version is None:
            if msg != VERSION:
                self.fail('first message is not VERSION: %r' % (m,))
            if not (isinstance(data, list) and len(data) == 3 and data[0] == 1):
                self.fail('bad VERSION %r' % (data,))
            self.version = (data[0], wire.text(data[1]), wire.text(data[2]))
            return
        if msg == LOG:
            self.on_log(data)
            return
        name = NAMES.get(msg)
        if not self.frames:
            self.fail('unexpected %s from an idle executor: %r' % (name or msg, data))
        f = self.frames[-1]
        h = getattr(self, 'on_' + name.lower(), None) if name else None
        if h is None:
            self.fail('unexpected message %r' % (m,))
        if isinstance(f.req, GetApi) and msg != GETAPI:
            self.fail('%s while answering an API request' % name)
        h(f, data)

    def note(self, f, *m):
        f.msgs.append(m)
        self.transcript.append((f.depth,) + m)

    def on_log(self, data):
        if not (isinstance(data, list) and len(data) == 3 and all(
                isinstance(x, int) and not isinstance(x, bool) for x in data[:2])):
            self.fail('bad LOG %r' % (data,))
        if not (0 <= data[0] <= 6) or data[1] not in (0, 1):
            self.fail('LOG level or flag out of range: %r' % (data,))
        self.logs.append((len(self.frames) - 1, data[0], data[1], wire.text(data[2])))

    def _bytes(self, v, what):
        if not isinstance(v, bytes):
            self.fail('%s is not bytes: %r' % (what, v))
        return v

    def on_getvalue(self, f, data):
        key = self._bytes(data, 'key')
        v = self.world.contracts[f.req.to].store.get(key)
        self.note(f, 'GETVALUE', key)
        self.send(GETVALUE, [v is not None, v])

    def on_setvalue(self, f, data):
        if not (isinstance(data, list) and len(data) == 3):
            self.fail('bad SETVALUE %r' % (data,))
        key, flag, val = data
        self._bytes(key, 'key')
        if flag not in (0, 1, 2, 3):
            self.fail('bad SETVALUE flag %r' % (flag,))
        if f.readonly:
            self.fail('state write from a read-only execution of %s' % f.req.method)
        st = self.world.contracts[f.req.to].store
        old = st.get(key)
        if flag & 1:
            if val is not None:
                self.fail('SETVALUE delete with a value')
            st.pop(key, None)
        else:
            self._bytes(val, 'value')
            if val == b'':
                st.pop(key, None)
            else:
                st[key] = val
        self.note(f, 'SETVALUE', key, flag, val)
        if flag & 2:
            self.send(SETVALUE, [old is not None, len(old) if old is not None else 0])

    def on_contains(self, f, data):
        if not (isinstance(data, list) and len(data) == 3):
            self.fail('bad CONTAINS %r' % (data,))
        prefix, val, limit = data
        self._bytes(prefix, 'prefix')
        self._bytes(val, 'value')
        if isinstance(limit, bool) or not isinstance(limit, int):
            self.fail('bad CONTAINS limit %r' % (limit,))
        self.note(f, 'CONTAINS', prefix, val, limit)
        self.send(CONTAINS, list(contains(self.world.contracts[f.req.to].store, self.world.step_costs,
                                          prefix, val, limit)))

    def on_getinfo(self, f, data):
        self.note(f, 'GETINFO')
        self.send(GETINFO, wire.enc_typed(dict(self.world.tx)))

    def on_getbalance(self, f, data):
        a = wire.dec_addr(data)
        self.note(f, 'GETBALANCE', a)
        self.send(GETBALANCE, wire.int_bytes(self.world.balances.get(a, 0)))

    def on_event(self, f, data):
        if not (isinstance(data, list) and len(data) == 2 and all(isinstance(x, list) for x in data)):
            self.fail('bad EVENT %r' % (data,))
        for x in data[0] + data[1]:
            if x is not None:
                self._bytes(x, 'event item')
        if f.readonly:
            self.fail('event from a read-only execution of %s' % f.req.method)
        if not data[0] or data[0][0] is None:
            self.fail('event without a signature')
        self.note(f, 'EVENT', data[0], data[1])
        self.world.events.append((f.req.to, data[0], data[1]))

    def on_setfeepct(self, f, data):
        if isinstance(data, bool) or not isinstance(data, int):
            self.fail('bad SETFEEPCT %r' % (data,))
        if f.readonly and f.req.query:
            self.fail('fee sharing request from a query')
        self.note(f, 'SETFEEPCT', data)

    def on_call(self, f, data):
        if not (isinstance(data, list) and len(data) == 5):
            self.fail('bad CALL %r' % (data,))
        to = wire.dec_addr(data[0])
        value = wire.int_from_strict(data[1])
        limit = wire.int_from_strict(data[2])
        if wire.text(data[3]) != 'call':
            self.fail('bad CALL data type %r' % (data[3],))
        body = wire.dec_typed(data[4])
        if not isinstance(body, dict) or set(body) != {'method', 'params'}:
            self.fail('bad CALL body %r' % (body,))
        call = {'to': to, 'value': value, 'limit': limit, 'method': body['method'], 'params': body['params']}
        self.note(f, 'CALL', to, value, limit, body['method'], body['params'])
        if self.world.call_hook is not None:
            r = self.world.call_hook(self, f, call)
            if r is not None:
                f.plan = list(r) if isinstance(r, list) else [r]
                self.go_on(f)
                return
        self.default_call(f, call)

    def go_on(self, f):
        """What the node does next about the call of `f`: further executions
        and API requests before it is answered."""
        r = f.plan.pop(0)
        if isinstance(r, (Invoke, GetApi)):
            self.begin(r, f)
        else:
            self.result_to(r[0], r[1], r[2])

    def default_call(self, f, call):
        w = self.world
        to, value = call['to'], call['value']
        me = f.req.to
        if value < 0:
            self.result_to(SYSTEM_FAILURE, 0, 'negative value')
            return
        bal = w.balances.get(me, 0)
        if value > bal or (value > 0 and f.readonly):
            self.result_to(OUT_OF_BALANCE, 0, 'OutOfBalance')
            return
        if to not in w.contracts:
            if to.is_contract:
                self.result_to(2, 0, 'ContractNotFound')
                return
            if call['method']:
                self.result_to(2, 0, 'NoContract')
                return
            w.balances[me] = bal - value
            w.balances[to] = w.balances.get(to, 0) + value
            self.result_to(SUCCESS, 0, None)
            return
        method = call['method'] if isinstance(call['method'], str) and call['method'] else 'fallback'
        params = call['params'] if call['params'] is not None else []
        if not isinstance(params, (list, dict)) or (isinstance(params, dict) and
                                                    not isinstance(params.get('.', []), list)):
            self.result_to(6, 0, 'InvalidParameter')
            return
        snap = w.snap()
        w.balances[me] = bal - value
        w.balances[to] = w.balances.get(to, 0) + value
        if isinstance(params, dict) and method in w.contracts[to].names:
            # the node passes named parameters on in declaration order
            pos = params.get('.', [])
            params = [pos[i] if i < len(pos) else params.get(n) for i, n in enumerate(w.contracts[to].names[method])]
        fr = self.begin(Invoke(to, method, params, frm=me, value=value,
                               limit=call['limit'], query=f.req.query or method in w.contracts[to].readonly), f)
        fr.snapshot = snap

    def result_to(self, status, steps, value):
        self.send(RESULT, [status, wire.int_bytes(steps), wire.enc_typed(value), 0, 0])

    def _end(self, f):
        if self.out and not self.chunks:
            self.fail('executor finished a request without consuming %d message(s) the node had sent' % len(self.out))
        self.frames.pop()

    def on_result(self, f, data):
        if isinstance(f.req, GetApi):
            self.fail('RESULT for an API request')
        if not (isinstance(data, list) and len(data) == 3) or isinstance(data[0], bool) or \
                not isinstance(data[0], int):
            self.fail('bad RESULT %r' % (data,))
        status = data[0]
        steps = wire.int_from_strict(data[1])
        value = wire.dec_typed(data[2])
        self.note(f, 'RESULT', status, steps, value)
        self._end(f)
        if status != SUCCESS:
            self.world.restore(f.snapshot)
        f.reply = Reply(f, status, steps, value)
        if f.parent is None:
            self.last_reply = f.reply
        elif f.parent.plan:
            self.go_on(f.parent)
        elif status == SUCCESS:
            self.result_to(status, steps, value)
        else:
            # the node passes on the message only when it is text
            self.result_to(status, steps, value if isinstance(value, str) else '')

    def on_getapi(self, f, data):
        if not isinstance(f.req, GetApi):
            self.fail('GETAPI reply to an invoke request')
        if not (isinstance(data, list) and len(data) == 2) or isinstance(data[0], bool) or \
                not isinstance(data[0], int):
            self.fail('bad GETAPI %r' % (data,))
        self.note(f, 'GETAPI', data[0])
        self._end(f)
        f.reply = Reply(f, data[0], api=data[1])
        if f.parent is None:
            self.last_reply = f.reply
        elif f.parent.plan:
            self.go_on(f.parent)
        else:
            self.result_to(SUCCESS, 0, None)


def contains(store, costs, prefix, val, limit):
    """The node's array scan."""
    import hashlib

    def h(b):
        return hashlib.sha3_256(b).digest()
    get = costs.get('get', 0)
    base = costs.get('getBase', 0)
    raw = store.get(h(prefix))
    size = wire.int_from(raw) if raw else 0
    cost = cnt = sz = 0
    for i in range(size):
        k = wire.int_bytes(i)
        v = store.get(h(prefix + (k if len(k) == 1 and k[0] < 0x80 else bytes([0x80 + len(k)]) + k)))
        cnt += 1
        cost += base
        if v is not None:
            sz += len(v)
            cost += get * len(v)
            if v == val:
                return True, cnt, sz
        if cost > limit:
            break
    return False, cnt, sz


class OwnStack(object):
    """A real socket needs no Python stack, so this one must not take any of
    the executor's."""
    def __enter__(self):
        self.old = sys.getrecursionlimit()
        probe()
        sys.setrecursionlimit(self.old + 5000)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.old)


def probe():
    """One frame more, so that the limit can be restored at this depth."""


class FakeSocket(object):
    def __init__(self, node):
        self.node = node
        self.connected = None

    def connect(self, addr):
        self.connected = addr
        self.node.connected = addr

    def connect_ex(self, addr):
        self.connect(addr)
        return 0

    def sendall(self, b, *a):
        with OwnStack():
            self.node.sendall(b)

    def send(self, b, *a):
        self.sendall(b)
        return len(b)

    def recv(self, n, *a):
        with OwnStack():
            return self.node.recv(n)

    def recv_into(self, buf, n=0, *a):
        m = memoryview(buf)
        d = self.recv(n or len(m))
        m[:len(d)] = d
        return len(d)

    def close(self):
        self.node.closed = True

    def shutdown(self, *a):
        pass

    def makefile(self, mode='rb', buffering=None, **k):
        node = self.node

        class Raw(io.RawIOBase):
            def readable(self):
                return True

            def writable(self):
                return True

            def readinto(self, b):
                with OwnStack():
                    d = node.recv(len(b))
                b[:len(d)] = d
                return len(d)

            def write(self, b):
                with OwnStack():
                    node.sendall(bytes(b))
                return len(b)
        if buffering == 0:
            return Raw()
        if 'w' in mode and 'r' in mode:
            return io.BufferedRWPair(Raw(), Raw())
        return io.BufferedWriter(Raw()) if 'w' in mode else io.BufferedReader(Raw())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def purge():
    for m in list(sys.modules):
        if m.split('.')[0] in ('pyexec', 'iconservice'):
            del sys.modules[m]


class SessionResult(object):
    def __init__(self, node):
        self.node = node
        self.transcript = node.transcript
        self.logs = node.logs
        self.raw = bytes(node.raw)
        self.roots = node.roots


UUID = '3f1d2c4b-0000-4000-8000-000000000001'
SOCK = '/nonexistent/ee.socket'
CPU_LIMIT = 20


# Set to see every session: observer.options(kw) may change how it is run and
# observer.note(result or text of a violation) is told how it ended.
observer = None


def run_session(world, script, **kw):
    if observer is None:
        return _run_session(world, script, **kw)
    try:
        res = _run_session(world, script, **observer.options(kw))
    except Violation as e:
        observer.note(str(e))
        raise
    observer.note(res)
    return res


def _run_session(world, script, chunks=None, verify=False, log_level=None, verbose=False):
    """Runs one complete executor life: start, serve everything `script`
    yields, CLOSE.  Raises Violation if the executor breaks the protocol."""
    node = Node(world, script, chunks)
    import socket
    argv = ['pyexec', '-s', SOCK, '-u', UUID]
    if verify:
        argv.append('-p')
    if log_level:
        argv += ['-d', log_level]
    if verbose:
        argv.append('-v')
    real, old_argv, old_path, old_mods = socket.socket, sys.argv, list(sys.path), set(sys.modules)
    old_limit = sys.getrecursionlimit()
    old_err = sys.stderr
    old_out = sys.stdout
    purge()
    logging.raiseExceptions = False
    died = None

    class _Sock(FakeSocket):
        def __init__(self, *a, **k):
            FakeSocket.__init__(self, node)
    def hang(*a):
        if node.dead is None:
            node.dead = 'executor does not get on with its work (%d s of CPU time)' % CPU_LIMIT
        raise NodeAbort(node.dead)
    # the executor gets the stack it would have in a process of its own
    depth = 0
    fr = sys._getframe()
    while fr is not None:
        depth, fr = depth + 1, fr.f_back
    sys.setrecursionlimit(1000 + depth)
    old_alarm = signal.signal(signal.SIGVTALRM, hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1)
    socket.socket = _Sock
    sys.argv = argv
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('pyexec', run_name='__main__', alter_sys=False)
    except SystemExit as e:
        if e.code not in (None, 0):
            died = 'exit status %r' % (e.code,)
    except NodeAbort as e:
        died = str(e)
    except BaseException as e:
        if e.__class__.__name__ == 'StopTest' or e.__class__.__module__.startswith('hypothesis') or \
                isinstance(e, HarnessError):
            raise
        try:
            died = '%s: %s' % (type(e).__name__, e)
        except BaseException:
            died = type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old_alarm)
        socket.socket = real
        sys.argv = old_argv
        sys.path[:] = old_path
        sys.stderr = old_err
        sys.stdout = old_out
        sys.setrecursionlimit(old_limit)
        purge()
        for m in set(sys.modules) - old_mods:
            if m.split('.')[0].startswith('sc_'):
                del sys.modules[m]
        try:
            script.close()
        except BaseException:
            pass
    if node.dead is not None:
        raise Violation(node.dead)
    if died is not None:
        raise Violation('executor died (%s) with %d request(s) unanswered' % (died, len(node.frames)))
    if not node.close_sent:
        raise Violation('executor returned before CLOSE, %d request(s) unanswered' % len(node.frames))
    if node.frames:
        raise Violation('%d request(s) unanswered' % len(node.frames))
    if node.out:
        raise Violation('executor stopped without reading everything')
    return SessionResult(node)


class HarnessError(BaseException):
    """The check itself cannot work; never reported as a violation."""


def script_of(requests, sink):
    """A script that sends the requests in order and appends the replies."""
    def gen():
        for r in requests:
            rep = yield r
            sink.append(rep)
    return gen()


def run_requests(world, requests, **kw):
    out = []
    res = run_session(world, script_of(requests, out), **kw)
    return out, res
