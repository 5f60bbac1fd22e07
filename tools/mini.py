"""A small node to demonstrate one change: runs the executor of the current
directory as a process and serves it on a socket in a scratch folder."""
import hashlib
import os
import shutil
import socket
import subprocess
import sys
import tempfile

import msgpack

REPO = os.getcwd()
SELF = b'\x01' + b'\x7a' * 20
CALLER = b'\x00' + b'\xe0' * 20
OWNER = b'\x00' + b'\x51' * 20
COSTS = {'schema': 1, 'get': 25, 'getBase': 100, 'set': 320, 'setBase': 10000, 'delete': -240, 'deleteBase': 200,
         'log': 100, 'logBase': 5000, 'apiCall': 10000}
V0 = {'get': 25, 'set': 320, 'replace': 80, 'delete': -240, 'eventLog': 100, 'apiCall': 10000}
HEAD = 'from iconservice import *\n\n\n'


def i2b(v):
    return v.to_bytes(((v + (v < 0)).bit_length() + 8) // 8, 'big', signed=True)


def b2i(b):
    return int.from_bytes(b, 'big', signed=True)


class Adr(bytes):
    pass


def enc(o):
    if o is None:
        return (0, None)
    if isinstance(o, bool):
        return (5, b'\1' if o else b'\0')
    if isinstance(o, dict):
        return (1, {k: enc(v) for k, v in o.items()})
    if isinstance(o, (list, tuple)):
        return (2, [enc(v) for v in o])
    if isinstance(o, Adr):
        return (10, bytes(o))
    if isinstance(o, bytes):
        return (3, o)
    if isinstance(o, str):
        return (4, o.encode())
    return (11, i2b(o))


def dec(t):
    tag, v = t
    if tag == 0:
        return None
    if tag == 1:
        return {(k.decode() if isinstance(k, bytes) else k): dec(x) for k, x in v.items()}
    if tag == 2:
        return [dec(x) for x in v]
    if tag == 3:
        return v
    if tag == 4:
        return v.decode()
    if tag == 5:
        return v == b'\1'
    if tag == 11:
        return b2i(v)
    return Adr(v)


class Node:
    def __init__(self, *args, env=None):
        self.dir = tempfile.mkdtemp(prefix='demo-')
        self.store = {}
        self.codes = {}
        self.balances = {}
        self.log = []
        self.n = 0
        path = os.path.join(self.dir, 's')
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        srv.bind(path)
        srv.listen(1)
        e = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'pyee'), PYTHONDONTWRITEBYTECODE='1', **(env or {}))
        self.p = subprocess.Popen([sys.executable, '-m', 'pyexec', '-s', path, '-u', 'demo'] + list(args), env=e,
                                  cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        srv.settimeout(30)
        self.s, _ = srv.accept()
        self.s.settimeout(20)
        self.un = msgpack.Unpacker(raw=True)
        self.recv()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        try:
            self.send(11, None)
            self.p.wait(5)
        except Exception:
            self.p.kill()
        self.s.close()
        shutil.rmtree(self.dir)

    def send(self, t, d):
        self.s.sendall(msgpack.packb([t, d]))

    def recv(self):
        while True:
            for m in self.un:
                return m
            b = self.s.recv(65536)
            if not b:
                raise SystemExit('executor went away')
            self.un.feed(b)

    def package(self, files, main='Main', module='main', name=None):
        """files: {path: text}; returns the path of the code."""
        self.n += 1
        d = os.path.join(self.dir, name or 'sc%d' % self.n)
        os.makedirs(d)
        for f, text in dict({'__init__.py': '', 'package.json':
                             '{"version":"1","main_module":"%s","main_score":"%s"}' % (module, main)}, **files).items():
            f = os.path.join(d, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'w') as fp:
                fp.write(text)
        return d

    def contract(self, body, addr=SELF, head=''):
        """body: methods of the class, indented by 4."""
        src = HEAD + head + '''

class Main(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self): pass
    def on_update(self): pass

''' + body
        self.codes[addr] = self.package({'main.py': src})
        return addr

    def invoke(self, method, params=(), to=SELF, frm=CALLER, value=0, limit=10 ** 9, query=False, costs=COSTS,
               revision=0, owner=OWNER):
        """-> status, steps, result"""
        params = enc(list(params)) if isinstance(params, (list, tuple)) else enc(params)
        info = {'B.timestamp': 1000, 'B.height': 5, 'T.hash': b'h' * 32, 'T.index': 0, 'T.timestamp': 999, 'T.nonce': 0,
                'T.from': Adr(frm), 'C.owner': Adr(owner), 'StepCosts': costs, 'Revision': revision}
        self.frame = to
        self.send(1, [self.codes[to], 1 if query else 0, frm, to, i2b(value), i2b(limit), method, params, enc(info)])
        return self.serve(to, query, costs, revision)

    def api(self, code):
        self.send(9, code)
        while True:
            t, d = self.recv()
            if t == 9:
                return d
            assert t == 10, t

    def serve(self, to, query, costs, revision):
        while True:
            t, d = self.recv()
            self.log.append((t, d))
            if t == 2:
                return d[0], b2i(d[1]), dec(d[2])
            if t == 3:
                v = self.store.get((to, d))
                self.send(3, [v is not None, v])
            elif t == 4:
                k, flag, v = d
                old = self.store.get((to, k))
                if flag & 1:
                    self.store.pop((to, k), None)
                else:
                    self.store[to, k] = v
                if flag & 2:
                    self.send(4, [old is not None, len(old or b'')])
            elif t == 5:
                a, value, limit, typ, data = d
                data = dec(data)
                params = data['params']
                if isinstance(params, dict):
                    # the order of parameters is known to a real node
                    params = list(params.get('.', [])) + [v for k, v in params.items() if k != '.']
                self.calls = getattr(self, 'calls', []) + [(a, b2i(value), b2i(limit), data)]
                if a in self.codes:
                    r = self.invoke(data['method'], params, to=a, frm=to, value=b2i(value), limit=b2i(limit),
                                    query=query, costs=costs, revision=revision)
                else:
                    r = (0, 0, None)
                self.send(2, [r[0], i2b(r[1]), enc(r[2])])
            elif t == 7:
                self.send(7, enc(None) if False else enc({}))
            elif t == 8:
                self.send(8, i2b(self.balances.get(d, 0)))
            elif t == 16:
                p, v, limit = d
                self.send(16, self.contains(to, p, v, limit))

    def contains(self, to, p, v, limit):
        n = b2i(self.store.get((to, hashlib.sha3_256(p).digest()), b'\0'))
        cnt = size = 0
        for i in range(n):
            k = i2b(i)
            x = self.store.get((to, hashlib.sha3_256(p + (k if len(k) == 1 and k[0] < 128 else
                                                          bytes([128 + len(k)]) + k)).digest()), b'')
            cnt += 1
            size += len(x)
            if x == v:
                return [True, cnt, size]
        return [False, cnt, size]


def check(cond, what):
    if not cond:
        print('FAILED:', what)
        raise SystemExit(1)
