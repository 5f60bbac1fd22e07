"""Hash and key functions against hashlib and textbook secp256k1."""
import functools

from hypothesis import strategies as st

from .. import gen, secp
from ..core import Facet
from ..sim import run_both

EDGE = [0, 1, 2, 3, secp.N - 1, secp.N, secp.N + 1, secp.P - secp.N - 1, secp.P - secp.N, secp.P - 1, secp.P,
        2 ** 255, 2 ** 256 - 1, secp.G[0], secp.N // 2, secp.N // 2 + 1]
NOT_BYTES = [None, '', 'text', 5, True, ['x'], {'a': 1}, gen.A]
LENGTHS = sorted({x for n in range(0, 12) for x in (32 * n - 1, 32 * n, 32 * n + 1) if x >= 0} | {1000, 3199, 3200, 3201})


@functools.lru_cache(None)
def key(d):
    return secp.mul(d, secp.G)


@functools.lru_cache(4096)
def signature(z, d, k):
    return secp.sign(z, d, k)


def b32(x):
    return x.to_bytes(32, 'big')


def nums():
    return st.one_of(st.sampled_from(EDGE), st.integers(1, 60), st.integers(0, 2 ** 256 - 1),
                     st.integers(1, 2 ** 127), st.integers(1, secp.N - 1))


@st.composite
def mangled(draw, b):
    k = draw(st.integers(0, 5))
    if k == 0 and b:
        i = draw(st.integers(0, len(b) - 1))
        return b[:i] + bytes([b[i] ^ (1 << draw(st.integers(0, 7)))]) + b[i + 1:]
    if k == 1:
        return b[:draw(st.sampled_from([0, 1, max(0, len(b) - 1)]))]
    if k == 2:
        return b + draw(st.sampled_from([b'\x00', b'\x01', b'\xff' * 32]))
    if k == 3:
        return draw(st.sampled_from(NOT_BYTES))
    return b


@st.composite
def rk(draw):
    z = draw(st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([b32(x) for x in (0, 1, secp.N, 2 ** 256 - 1)])))
    sig = None
    if draw(st.integers(0, 2)) == 0:
        sig = signature(z, draw(st.integers(1, 8)), draw(st.integers(1, 12)))
        if sig and draw(st.integers(0, 2)) == 0:
            # the other signature of the pair
            sig = sig[:32] + b32(secp.N - int.from_bytes(sig[32:64], 'big')) + bytes([sig[64] ^ 1])
    if sig is None:
        sig = b32(draw(nums())) + b32(draw(nums())) + bytes([draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 4, 27, 255]))])
    if draw(st.integers(0, 7)) == 0:
        sig = draw(mangled(sig))
    if draw(st.integers(0, 11)) == 0:
        z = draw(mangled(z))
    if draw(st.integers(0, 4)) == 0:
        return ('rkd', z, sig)
    return ('rk', z, sig, draw(st.sampled_from([True, False])))


@st.composite
def ca(draw):
    k = draw(st.integers(0, 5))
    if k <= 1:
        b = secp.encode(key(draw(st.integers(1, 40))), draw(st.booleans()))
        if k == 0 and draw(st.booleans()):
            b = draw(mangled(b))
    elif k == 2:
        b = bytes([draw(st.sampled_from([2, 3]))]) + b32(draw(nums()))
    elif k == 3:
        b = bytes([draw(st.integers(0, 8))]) + draw(st.binary(min_size=32, max_size=32))
    elif k == 4:
        b = bytes([draw(st.integers(0, 8))]) + draw(st.binary(min_size=64, max_size=64))
    else:
        b = draw(st.one_of(st.sampled_from(NOT_BYTES), st.binary(max_size=80),
                           st.builds(bytes, st.sampled_from([0, 32, 33, 34, 64, 65, 66]))))
    return ('ca', b)


@st.composite
def hash_op(draw):
    k = draw(st.integers(0, 8))
    if k == 0:
        d = draw(st.sampled_from(NOT_BYTES))
    elif k <= 4:
        d = bytes([draw(st.integers(0, 255))]) * draw(st.sampled_from(LENGTHS))
    else:
        d = draw(st.binary(max_size=100))
    return (draw(st.sampled_from(['sha3', 'sha2'])), d)


@st.composite
def ops(draw, depth):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k == 9 and depth:
            out.append(('call', 'if', draw(st.sampled_from([gen.A, gen.B, gen.C])), 0,
                        draw(st.sampled_from(['run', 'ro'])), [draw(ops(depth - 1))], {}))
            continue
        op = draw(hash_op() if k <= 3 else rk() if k <= 6 else ca())
        if op[0] in ('sha3', 'sha2') and not isinstance(op[1], bytes):
            op = ('try', [op], draw(st.sampled_from(['icon', 'all'])))
        out.append(op)
    return out


@st.composite
def cases(draw):
    c = draw(st.sampled_from([0, 1, 3, 7, 9, 10, 11, 99, 999, 1000, 1001, 10000, 12345]))
    costs = {'schema': draw(st.integers(0, 1)), 'apiCall': c}
    if draw(st.integers(0, 9)) == 0:
        costs = draw(gen.costs())
    return {'costs': costs, 'revision': draw(st.sampled_from([0, 256])), 'balances': {},
            'reqs': [{'to': gen.A, 'method': draw(st.sampled_from(['run', 'run', 'ro'])), 'prog': draw(ops(1))}]}


def walk(ops_, f):
    for o in ops_:
        f(o)
        if o[0] == 'try':
            walk(o[1], f)
        elif o[0] == 'call':
            walk(o[5][0], f)


def check(case, rec):
    sim, roots, res, w = run_both(case, what=('RESULT', 'CALL'))
    rec.hits(sim.stats)

    def note(v, o=None):
        if isinstance(v, list):
            for x in v:
                note(x)
        elif isinstance(v, bytes):
            rec.hit('%d bytes returned' % len(v))
        elif v is None:
            rec.hit('null returned')
        elif not isinstance(v, (int, str)):
            rec.hit('address returned')
    note(res.roots[0].reply.value)

    def see(o):
        if o[0] in ('sha3', 'sha2', 'rk', 'rkd', 'ca'):
            rec.nontrivial(o)
    walk(case['reqs'][0]['prog'], see)


FACETS = [
    Facet('functions', cases, check, 3500, 150000, 'every function call; distinct by function and arguments'),
]
