// Package ref has small, independent implementations of the encodings the
// node uses: RLP, the Merkle Patricia trie, and maps with a fixed order.
package ref

import (
	"bytes"
	"math/big"
	"sort"

	"golang.org/x/crypto/sha3"
)

// Sum is SHA3-256.
func Sum(b ...[]byte) []byte {
	h := sha3.New256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func lenBytes(n int) []byte {
	var b []byte
	for n > 0 {
		b = append([]byte{byte(n)}, b...)
		n >>= 8
	}
	return b
}

// RlpString encodes a byte string.
func RlpString(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	if len(b) < 56 {
		return append([]byte{byte(0x80 + len(b))}, b...)
	}
	l := lenBytes(len(b))
	return append(append([]byte{byte(0xb7 + len(l))}, l...), b...)
}

// RlpList wraps encoded items.
func RlpList(items ...[]byte) []byte {
	b := bytes.Join(items, nil)
	if len(b) < 56 {
		return append([]byte{byte(0xc0 + len(b))}, b...)
	}
	l := lenBytes(len(b))
	return append(append([]byte{byte(0xf7 + len(l))}, l...), b...)
}

// RlpNil is goloop's extension of RLP for nil.
var RlpNil = []byte{0xf8, 0x00}

// Int encodes a number the shortest way in two's complement (0 is one zero byte).
func Int(v *big.Int) []byte {
	for n := 1; ; n++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if v.Cmp(lim) < 0 && v.Cmp(new(big.Int).Neg(lim)) >= 0 {
			x := new(big.Int).Set(v)
			if x.Sign() < 0 {
				x.Add(x, new(big.Int).Lsh(lim, 1))
			}
			b := x.Bytes()
			out := make([]byte, n)
			copy(out[n-len(b):], b)
			return out
		}
	}
}

// BigOf is the inverse of Int for any two's complement bytes.
func BigOf(b []byte) *big.Int {
	v := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

type kv struct{ k, v []byte }

func nibs(k string) []byte {
	out := make([]byte, 0, 2*len(k))
	for i := 0; i < len(k); i++ {
		out = append(out, k[i]>>4, k[i]&15)
	}
	return out
}

func hp(k []byte, flag byte) []byte {
	var out []byte
	if len(k)%2 == 1 {
		out = []byte{flag | 0x10 | k[0]}
		k = k[1:]
	} else {
		out = []byte{flag}
	}
	for i := 0; i < len(k); i += 2 {
		out = append(out, k[i]<<4|k[i+1])
	}
	return out
}

func trieNode(items []kv) []byte {
	if len(items) == 1 {
		return RlpList(RlpString(hp(items[0].k, 0x20)), RlpString(items[0].v))
	}
	n := len(items[0].k)
	for _, x := range items[1:] {
		i := 0
		for i < n && i < len(x.k) && x.k[i] == items[0].k[i] {
			i++
		}
		n = i
	}
	if n > 0 {
		sub := make([]kv, len(items))
		for i, x := range items {
			sub[i] = kv{x.k[n:], x.v}
		}
		return RlpList(RlpString(hp(items[0].k[:n], 0)), link(trieNode(sub)))
	}
	var parts [17][]byte
	var groups [16][]kv
	parts[16] = RlpString(nil)
	for _, x := range items {
		if len(x.k) == 0 {
			parts[16] = RlpString(x.v)
		} else {
			groups[x.k[0]] = append(groups[x.k[0]], kv{x.k[1:], x.v})
		}
	}
	for i, g := range groups {
		if len(g) == 0 {
			parts[i] = RlpString(nil)
		} else {
			parts[i] = link(trieNode(g))
		}
	}
	return RlpList(parts[:]...)
}

func link(b []byte) []byte {
	if len(b) > 32 {
		return RlpString(Sum(b))
	}
	return b
}

// TrieRoot is the root hash of the trie with these contents (nil if empty).
func TrieRoot(m map[string][]byte) []byte {
	if len(m) == 0 {
		return nil
	}
	items := make([]kv, 0, len(m))
	for _, k := range Keys(m) {
		items = append(items, kv{nibs(k), m[k]})
	}
	return Sum(trieNode(items))
}

// Keys in order.
func Keys(m map[string][]byte) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Clone of a map.
func Clone(m map[string][]byte) map[string][]byte {
	out := make(map[string][]byte, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}
