package hmodel

import (
	"encoding/hex"
	"math/big"

	"github.com/icon-project/goloop/zzpbt/ref"
)

var (
	prime, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	seven    = big.NewInt(7)
	rootExp  = new(big.Int).Rsh(new(big.Int).Add(prime, big.NewInt(1)), 2)
)

// NodeOf is the account of a compressed secp256k1 key, if it is one.
func NodeOf(key []byte) (string, bool) {
	if len(key) != 33 || key[0] != 2 && key[0] != 3 {
		return "", false
	}
	x := new(big.Int).SetBytes(key[1:])
	if x.Cmp(prime) >= 0 {
		return "", false
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), prime)
	y2.Add(y2, seven).Mod(y2, prime)
	y := new(big.Int).Exp(y2, rootExp, prime)
	if new(big.Int).Mod(new(big.Int).Mul(y, y), prime).Cmp(y2) != 0 {
		return "", false
	}
	if y.Bit(0) != uint(key[0]&1) {
		y.Sub(prime, y)
	}
	b := make([]byte, 64)
	x.FillBytes(b[:32])
	y.FillBytes(b[32:])
	return "hx" + hex.EncodeToString(ref.Sum(b)[12:]), true
}

// KeyOf is a valid key made from a number.
func KeyOf(n int) []byte {
	x := new(big.Int).SetBytes(ref.Sum([]byte{byte(n), byte(n >> 8), 'k'}))
	for {
		key := append([]byte{byte(2 + n&1)}, x.FillBytes(make([]byte, 32))...)
		if _, ok := NodeOf(key); ok {
			return key
		}
		x.Add(x, big.NewInt(1))
	}
}
