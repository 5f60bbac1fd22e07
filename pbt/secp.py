"""secp256k1 by the book (affine arithmetic), independent of any library."""
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def mul(k, p):
    r = None
    while k:
        if k & 1:
            r = add(r, p)
        p = add(p, p)
        k >>= 1
    return r


def lift(x, odd):
    if not 0 <= x < P:
        return None
    y2 = (pow(x, 3, P) + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    if y * y % P != y2:
        return None
    return x, (y if y & 1 == odd else P - y)


def encode(p, compressed):
    x = p[0].to_bytes(32, 'big')
    if compressed:
        return bytes([2 + (p[1] & 1)]) + x
    return b'\x04' + x + p[1].to_bytes(32, 'big')


def decode(k):
    if len(k) == 33 and k[0] in (2, 3):
        return lift(int.from_bytes(k[1:], 'big'), k[0] & 1)
    return None


def sign(z, d, k):
    """Recoverable signature with the given nonce (no low-s rule)."""
    r_pt = mul(k, G)
    r = r_pt[0] % N
    s = pow(k, -1, N) * (int.from_bytes(z, 'big') + r * d) % N
    if r == 0 or s == 0:
        return None
    v = (r_pt[1] & 1) | (2 if r_pt[0] >= N else 0)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([v])


def recover(z, sig):
    r = int.from_bytes(sig[:32], 'big')
    s = int.from_bytes(sig[32:64], 'big')
    v = sig[64]
    if v > 3 or not 0 < r < N or not 0 < s < N:
        return None
    pt = lift(r + (N if v & 2 else 0), v & 1)
    if pt is None:
        return None
    e = int.from_bytes(z, 'big') % N
    ri = pow(r, -1, N)
    return add(mul(s * ri % N, pt), mul((-e * ri) % N, G))
