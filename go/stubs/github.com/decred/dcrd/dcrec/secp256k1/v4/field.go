package secp256k1

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// fe is a number modulo P, four words, the lowest first, always reduced.
type fe [4]uint64

const red = 0x1000003d1 // 2^256 modulo P

var one = fe{1}
var pw = fe{0xfffffffefffffc2f, ^uint64(0), ^uint64(0), ^uint64(0)}

func toFe(v *big.Int) fe {
	var b [32]byte
	v.FillBytes(b[:])
	return fe{binary.BigEndian.Uint64(b[24:]), binary.BigEndian.Uint64(b[16:]), binary.BigEndian.Uint64(b[8:]), binary.BigEndian.Uint64(b[:])}
}

func (a fe) big() *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(b[24-8*i:], a[i])
	}
	return new(big.Int).SetBytes(b[:])
}

func (a fe) zero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

// norm reduces a + c*2^256 where the sum is below 2*P.
func norm(a fe, c uint64) fe {
	var r fe
	var b uint64
	r[0], b = bits.Sub64(a[0], pw[0], 0)
	r[1], b = bits.Sub64(a[1], pw[1], b)
	r[2], b = bits.Sub64(a[2], pw[2], b)
	r[3], b = bits.Sub64(a[3], pw[3], b)
	if c == 0 && b == 1 {
		return a
	}
	return r
}

func fadd(a, b fe) fe {
	var r fe
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], c = bits.Add64(a[3], b[3], c)
	return norm(r, c)
}

func fsub(a, b fe) fe {
	var r fe
	var c uint64
	r[0], c = bits.Sub64(a[0], b[0], 0)
	r[1], c = bits.Sub64(a[1], b[1], c)
	r[2], c = bits.Sub64(a[2], b[2], c)
	r[3], c = bits.Sub64(a[3], b[3], c)
	if c == 1 {
		r[0], c = bits.Add64(r[0], pw[0], 0)
		r[1], c = bits.Add64(r[1], pw[1], c)
		r[2], c = bits.Add64(r[2], pw[2], c)
		r[3], _ = bits.Add64(r[3], pw[3], c)
	}
	return r
}

func fmul(a, b fe) fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			h, l := bits.Mul64(a[i], b[j])
			var x uint64
			l, x = bits.Add64(l, t[i+j], 0)
			h += x
			l, x = bits.Add64(l, c, 0)
			h += x
			t[i+j], c = l, h
		}
		t[i+4] = c
	}
	// fold the upper half twice
	var r [5]uint64
	var c uint64
	for i := 0; i < 4; i++ {
		h, l := bits.Mul64(t[i+4], red)
		var x uint64
		l, x = bits.Add64(l, t[i], 0)
		h += x
		l, x = bits.Add64(l, c, 0)
		h += x
		r[i], c = l, h
	}
	h, l := bits.Mul64(c, red)
	var o fe
	o[0], c = bits.Add64(r[0], l, 0)
	o[1], c = bits.Add64(r[1], h, c)
	o[2], c = bits.Add64(r[2], 0, c)
	o[3], c = bits.Add64(r[3], 0, c)
	return norm(o, c)
}

func pow(a fe, e *big.Int) fe {
	r := one
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = fmul(r, r)
		if e.Bit(i) == 1 {
			r = fmul(r, a)
		}
	}
	return r
}
