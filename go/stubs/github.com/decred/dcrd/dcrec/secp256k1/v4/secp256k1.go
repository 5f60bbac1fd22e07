// Package secp256k1 is a plain implementation of the parts in use.
package secp256k1

import (
	"crypto/rand"
	"errors"
	"math/big"
)

const (
	PubKeyBytesLenCompressed   = 33
	PubKeyBytesLenUncompressed = 65
)

var (
	P       = hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N       = hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	G       = &Point{hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}
	seven   = fe{7}
	quarter = new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
)

func hex(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 16)
	return v
}

// Point is affine; nil is the point at infinity.
type Point struct {
	X, Y *big.Int
}

type jac struct {
	x, y, z fe
}

func dbl(p *jac) *jac {
	if p == nil || p.y.zero() {
		return nil
	}
	a := fmul(p.x, p.x)
	b := fmul(p.y, p.y)
	c := fmul(b, b)
	d := fadd(p.x, b)
	d = fsub(fsub(fmul(d, d), a), c)
	d = fadd(d, d)
	e := fadd(fadd(a, a), a)
	x := fsub(fmul(e, e), fadd(d, d))
	c = fadd(c, c)
	c = fadd(c, c)
	c = fadd(c, c)
	y := fsub(fmul(e, fsub(d, x)), c)
	z := fmul(p.y, p.z)
	return &jac{x, y, fadd(z, z)}
}

func add(p, q *jac) *jac {
	if p == nil {
		return q
	}
	if q == nil {
		return p
	}
	z1, z2 := fmul(p.z, p.z), fmul(q.z, q.z)
	u1, u2 := fmul(p.x, z2), fmul(q.x, z1)
	s1, s2 := fmul(p.y, fmul(z2, q.z)), fmul(q.y, fmul(z1, p.z))
	h, r := fsub(u2, u1), fsub(s2, s1)
	if h.zero() {
		if r.zero() {
			return dbl(p)
		}
		return nil
	}
	h2 := fmul(h, h)
	h3 := fmul(h2, h)
	v := fmul(u1, h2)
	x := fsub(fsub(fmul(r, r), h3), fadd(v, v))
	y := fsub(fmul(r, fsub(v, x)), fmul(s1, h3))
	return &jac{x, y, fmul(h, fmul(p.z, q.z))}
}

// Mul2 is a*p + b*G; a or p may be nil.
func Mul2(a *big.Int, p *Point, b *big.Int) *Point {
	var r *jac
	var jp *jac
	if p != nil && a != nil {
		jp = &jac{toFe(p.X), toFe(p.Y), one}
	} else {
		a = new(big.Int)
	}
	jg := &jac{toFe(G.X), toFe(G.Y), one}
	both := add(jp, jg)
	n := a.BitLen()
	if b.BitLen() > n {
		n = b.BitLen()
	}
	for i := n - 1; i >= 0; i-- {
		r = dbl(r)
		switch a.Bit(i)<<1 | b.Bit(i) {
		case 1:
			r = add(r, jg)
		case 2:
			r = add(r, jp)
		case 3:
			r = add(r, both)
		}
	}
	if r == nil {
		return nil
	}
	zi := toFe(new(big.Int).ModInverse(r.z.big(), P))
	z2 := fmul(zi, zi)
	return &Point{fmul(r.x, z2).big(), fmul(r.y, fmul(z2, zi)).big()}
}

// Lift is the point with the x coordinate.
func Lift(x *big.Int, odd bool) *Point {
	if x.Cmp(P) >= 0 {
		return nil
	}
	a := toFe(x)
	y := fadd(fmul(fmul(a, a), a), seven)
	root := pow(y, quarter)
	if fmul(root, root) != y {
		return nil
	}
	r := root.big()
	if (r.Bit(0) == 1) != odd {
		r.Sub(P, r)
	}
	return &Point{new(big.Int).Set(x), r}
}

type PrivateKey struct {
	D *big.Int
}

type PublicKey struct {
	P *Point
}

func GeneratePrivateKey() (*PrivateKey, error) {
	for {
		var b [32]byte
		if _, err := rand.Read(b[:]); err != nil {
			return nil, err
		}
		if v := new(big.Int).SetBytes(b[:]); v.Sign() > 0 && v.Cmp(N) < 0 {
			return &PrivateKey{v}, nil
		}
	}
}

func PrivKeyFromBytes(b []byte) *PrivateKey {
	if len(b) > 32 {
		b = b[:32]
	}
	v := new(big.Int).SetBytes(b)
	return &PrivateKey{v.Mod(v, N)}
}

func (k *PrivateKey) PubKey() *PublicKey { return &PublicKey{Mul2(nil, nil, k.D)} }

func (k *PrivateKey) Serialize() []byte { return k.D.FillBytes(make([]byte, 32)) }

var errPub = errors.New("malformed public key")

func ParsePubKey(b []byte) (*PublicKey, error) {
	switch len(b) {
	case 33:
		if b[0] != 2 && b[0] != 3 {
			return nil, errPub
		}
		p := Lift(new(big.Int).SetBytes(b[1:]), b[0] == 3)
		if p == nil {
			return nil, errPub
		}
		return &PublicKey{p}, nil
	case 65:
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if b[0] != 4 && b[0] != 6 && b[0] != 7 || y.Cmp(P) >= 0 || b[0] != 4 && byte(y.Bit(0)) != b[0]&1 {
			return nil, errPub
		}
		p := Lift(x, y.Bit(0) == 1)
		if p == nil || p.Y.Cmp(y) != 0 {
			return nil, errPub
		}
		return &PublicKey{p}, nil
	}
	return nil, errPub
}

func (k *PublicKey) SerializeCompressed() []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(k.P.Y.Bit(0))
	k.P.X.FillBytes(b[1:])
	return b
}

func (k *PublicKey) SerializeUncompressed() []byte {
	b := make([]byte, 65)
	b[0] = 4
	k.P.X.FillBytes(b[1:33])
	k.P.Y.FillBytes(b[33:])
	return b
}

func (k *PublicKey) IsEqual(o *PublicKey) bool {
	return k.P.X.Cmp(o.P.X) == 0 && k.P.Y.Cmp(o.P.Y) == 0
}

type ModNScalar struct {
	V big.Int
}

// SetByteSlice tells whether the value was not less than the order.
func (s *ModNScalar) SetByteSlice(b []byte) bool {
	if len(b) > 32 {
		b = b[:32]
	}
	s.V.SetBytes(b)
	over := s.V.Cmp(N) >= 0
	if over {
		s.V.Sub(&s.V, N)
	}
	return over
}
