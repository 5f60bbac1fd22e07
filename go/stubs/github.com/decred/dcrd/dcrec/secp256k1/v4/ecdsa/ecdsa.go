package ecdsa

import (
	"crypto/hmac"
	"crypto/sha256"
	"errors"
	"math/big"
	"sync"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
)

type Signature struct {
	r, s *big.Int
}

func NewSignature(r, s *secp256k1.ModNScalar) *Signature {
	return &Signature{new(big.Int).Set(&r.V), new(big.Int).Set(&s.V)}
}

func number(hash []byte) *big.Int {
	if len(hash) > 32 {
		hash = hash[:32]
	}
	v := new(big.Int).SetBytes(hash)
	return v.Mod(v, secp256k1.N)
}

func (g *Signature) Verify(hash []byte, pub *secp256k1.PublicKey) bool {
	n := secp256k1.N
	if g.r.Sign() == 0 || g.s.Sign() == 0 || g.r.Cmp(n) >= 0 || g.s.Cmp(n) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(g.s, n)
	u1 := new(big.Int).Mul(number(hash), w)
	u2 := new(big.Int).Mul(g.r, w)
	p := secp256k1.Mul2(u2.Mod(u2, n), pub.P, u1.Mod(u1, n))
	if p == nil {
		return false
	}
	x := new(big.Int).Mod(p.X, n)
	return x.Cmp(g.r) == 0
}

func SignCompact(key *secp256k1.PrivateKey, hash []byte, compressed bool) []byte {
	n := secp256k1.N
	e := number(hash)
	for i := byte(0); ; i++ {
		m := hmac.New(sha256.New, key.Serialize())
		m.Write(hash)
		m.Write([]byte{i})
		k := new(big.Int).SetBytes(m.Sum(nil))
		if k.Sign() == 0 || k.Cmp(n) >= 0 {
			continue
		}
		p := secp256k1.Mul2(nil, nil, k)
		r := new(big.Int).Mod(p.X, n)
		s := new(big.Int).Mul(r, key.D)
		s.Add(s, e).Mul(s, new(big.Int).ModInverse(k, n)).Mod(s, n)
		if r.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		v := byte(p.Y.Bit(0))
		if p.X.Cmp(n) >= 0 {
			v |= 2
		}
		if new(big.Int).Lsh(s, 1).Cmp(n) > 0 {
			s.Sub(n, s)
			v ^= 1
		}
		b := make([]byte, 65)
		b[0] = 27 + v
		if compressed {
			b[0] += 4
		}
		r.FillBytes(b[1:33])
		s.FillBytes(b[33:])
		return b
	}
}

var errSig = errors.New("invalid compact signature")

// recovered remembers what was recovered before: whole networks of nodes check
// the same signatures.
var recovered struct {
	sync.Mutex
	m map[string]*secp256k1.Point
}

func RecoverCompact(sig, hash []byte) (*secp256k1.PublicKey, bool, error) {
	key := string(sig) + "/" + string(hash)
	recovered.Lock()
	p, ok := recovered.m[key]
	recovered.Unlock()
	if ok {
		return &secp256k1.PublicKey{P: &secp256k1.Point{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}}, (sig[0]-27)&4 != 0, nil
	}
	pk, c, err := recover1(sig, hash)
	if err == nil {
		recovered.Lock()
		if recovered.m == nil || len(recovered.m) > 5000 {
			recovered.m = map[string]*secp256k1.Point{}
		}
		recovered.m[key] = &secp256k1.Point{X: new(big.Int).Set(pk.P.X), Y: new(big.Int).Set(pk.P.Y)}
		recovered.Unlock()
	}
	return pk, c, err
}

func recover1(sig, hash []byte) (*secp256k1.PublicKey, bool, error) {
	n := secp256k1.N
	if len(sig) != 65 || sig[0] < 27 || sig[0] > 34 {
		return nil, false, errSig
	}
	v := sig[0] - 27
	r, s := new(big.Int).SetBytes(sig[1:33]), new(big.Int).SetBytes(sig[33:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return nil, false, errSig
	}
	x := new(big.Int).Set(r)
	if v&2 != 0 {
		x.Add(x, n)
	}
	p := secp256k1.Lift(x, v&1 == 1)
	if p == nil {
		return nil, false, errSig
	}
	w := new(big.Int).ModInverse(r, n)
	u1 := new(big.Int).Neg(number(hash))
	u1.Mul(u1, w).Mod(u1, n)
	u2 := new(big.Int).Mul(s, w)
	q := secp256k1.Mul2(u2.Mod(u2, n), p, u1)
	if q == nil {
		return nil, false, errSig
	}
	return &secp256k1.PublicKey{P: q}, v&4 != 0, nil
}
