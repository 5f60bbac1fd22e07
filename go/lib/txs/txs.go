// Package txs makes transactions of any form, signs them, and computes their
// identifiers from the documented serialization, without the node's code.
package txs

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/common/wallet"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/ref"
	"pgregory.net/rapid"
)

var wallets = map[int]module.Wallet{}

// Wallet is the i-th user's key.
func Wallet(i int) module.Wallet {
	if w := wallets[i]; w != nil {
		return w
	}
	sk, err := crypto.ParsePrivateKey(ref.Sum([]byte(fmt.Sprintf("key %d", i))))
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	w, err := wallet.NewFromPrivateKey(sk)
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	wallets[i] = w
	return w
}

// Address of the i-th user.
func Address(i int) string { return Wallet(i).Address().String() }

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(`\.{}[]`, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// Leading tells that a list begins with an empty text and goes on: the node
// drops the dots after such elements.
func Leading(v any) bool {
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			if Leading(e) {
				return true
			}
		}
		return len(x) > 1 && x[0] == ""
	case map[string]any:
		for _, e := range x {
			if Leading(e) {
				return true
			}
		}
	}
	return false
}

// Ser is the serialization of a JSON value; numbers are json.Number.
func Ser(v any) string {
	switch x := v.(type) {
	case nil:
		return `\0`
	case string:
		return escape(x)
	case []any:
		l := make([]string, len(x))
		for i, e := range x {
			l[i] = Ser(e)
		}
		return "[" + strings.Join(l, ".") + "]"
	case map[string]any:
		return "{" + dict(x) + "}"
	case json.Number:
		f, _ := new(big.Float).SetString(string(x))
		i, _ := f.Int(nil)
		return i.String()
	}
	panic(kit.Broken(fmt.Sprintf("no serialization of %T", v)))
}

// Bool tells that the value has a bool, which has no serialization.
func Bool(v any) bool {
	switch x := v.(type) {
	case bool:
		return true
	case []any:
		for _, e := range x {
			if Bool(e) {
				return true
			}
		}
	case map[string]any:
		for _, e := range x {
			if Bool(e) {
				return true
			}
		}
	}
	return false
}

func dict(m map[string]any, skip ...string) string {
	ks := make([]string, 0, len(m))
next:
	for k := range m {
		for _, s := range skip {
			if k == s {
				continue next
			}
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	l := make([]string, len(ks))
	for i, k := range ks {
		l[i] = escape(k) + "." + Ser(m[k])
	}
	return strings.Join(l, ".")
}

// Text is what the identifier of a version 3 transaction is the hash of.
func Text(m map[string]any) string {
	return "icx_sendTransaction." + dict(m, "signature", "txHash")
}

// Hash is the identifier of a version 3 transaction.
func Hash(m map[string]any) []byte { return ref.Sum([]byte(Text(m))) }

// Sign signs a hash.
func Sign(w module.Wallet, hash []byte) []byte {
	b, err := w.Sign(hash)
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	return b
}

// Signed adds the signature of a transaction.
func Signed(w module.Wallet, m map[string]any) map[string]any {
	b := Sign(w, Hash(m))
	m["signature"] = base64.StdEncoding.EncodeToString(b)
	return m
}

// Decode reads JSON, keeping numbers.
func Decode(js []byte) (any, error) {
	var v any
	d := json.NewDecoder(strings.NewReader(string(js)))
	d.UseNumber()
	err := d.Decode(&v)
	return v, err
}

// Item is a value of the binary form.
type Item struct {
	Nil  bool
	List bool
	Kids []*Item
	B    []byte
}

// Bytes of the item.
func (x *Item) Bytes() []byte {
	switch {
	case x.Nil:
		return append([]byte(nil), ref.RlpNil...)
	case x.List:
		l := make([][]byte, len(x.Kids))
		for i, k := range x.Kids {
			l[i] = k.Bytes()
		}
		return ref.RlpList(l...)
	}
	return ref.RlpString(x.B)
}

// Copy of the item.
func (x *Item) Copy() *Item {
	y := &Item{Nil: x.Nil, List: x.List, B: append([]byte(nil), x.B...)}
	for _, k := range x.Kids {
		y.Kids = append(y.Kids, k.Copy())
	}
	return y
}

// All items below.
func (x *Item) All() []*Item {
	l := []*Item{x}
	for _, k := range x.Kids {
		l = append(l, k.All()...)
	}
	return l
}

// Parse reads the binary form.
func Parse(b []byte) (x *Item, rest []byte, ok bool) {
	if len(b) == 0 {
		return nil, nil, false
	}
	size := func(short, long int) (int, int, bool) {
		t := int(b[0]) - short
		if t < 56 {
			return 1, t, true
		}
		n := int(b[0]) - long
		if len(b) < 1+n || n > 4 {
			return 0, 0, false
		}
		v := 0
		for _, c := range b[1 : 1+n] {
			v = v<<8 | int(c)
		}
		return 1 + n, v, true
	}
	switch {
	case b[0] < 0x80:
		return &Item{B: b[:1]}, b[1:], true
	case b[0] < 0xc0:
		o, n, k := size(0x80, 0xb7)
		if !k || len(b) < o+n {
			return nil, nil, false
		}
		return &Item{B: b[o : o+n]}, b[o+n:], true
	case len(b) > 1 && b[0] == 0xf8 && b[1] == 0:
		return &Item{Nil: true}, b[2:], true
	}
	o, n, k := size(0xc0, 0xf7)
	if !k || len(b) < o+n {
		return nil, nil, false
	}
	x = &Item{List: true}
	for in := b[o : o+n]; len(in) > 0; {
		y, r, k := Parse(in)
		if !k {
			return nil, nil, false
		}
		x.Kids = append(x.Kids, y)
		in = r
	}
	return x, b[o+n:], true
}

// G draws.
type G struct{ T *rapid.T }

// Int draws from a range.
func (g G) Int(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, "n") }

// Chance is true in n of d cases.
func (g G) Chance(n, d int) bool { return g.Int(1, d) <= n }

// Pick one.
func Pick[E any](g G, l ...E) E { return l[g.Int(0, len(l)-1)] }

// Str draws a text with the characters that matter to the serialization.
func (g G) Str() string {
	if g.Chance(1, 3) {
		return Pick(g, "", "a", "0x1", ".", `\`, `\0`, "{}", "[]", "method", "icx", "data", "from", "to", "é한", "\x00", "\u2028", "<&>", "1", "0x", "-0x1", "hx00000000000000000000000000000000000000a1")
	}
	n := g.Int(0, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(Pick(g, "a", "b", ".", `\`, "{", "}", "[", "]", `"`, "0", "x", "1", " ", "\n", "é", "𐍈", "_", "/", "\x7f"))
	}
	return b.String()
}

// Value draws a JSON value without bools.
func (g G) Value(depth int) any {
	k := g.Int(0, 9)
	switch {
	case k == 0:
		return nil
	case k == 1:
		return json.Number(Pick(g, "0", "1", "-1", "5", "255", "123456", "-77", "1.5", "-2.75", "1e3"))
	case k <= 5 || depth == 0:
		return g.Str()
	case k <= 7:
		l := []any{}
		for i := g.Int(0, 3); i > 0; i-- {
			l = append(l, g.Value(depth-1))
		}
		return l
	}
	m := map[string]any{}
	for i := g.Int(0, 3); i > 0; i-- {
		m[g.Str()] = g.Value(depth - 1)
	}
	return m
}

// Number draws an integer that is not negative.
func (g G) Number() *big.Int {
	switch g.Int(0, 4) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(g.Int(0, 300)))
	case 2:
		return new(big.Int).Lsh(big.NewInt(int64(g.Int(1, 3))), uint(g.Int(0, 120)))
	case 3:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(g.Int(1, 130))), big.NewInt(1))
	}
	return new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(g.T, "bytes"))
}

// Hex writes a number in a form the node accepts: the usual one, or another.
func (g G) Hex(v *big.Int, odd bool) any {
	s := (&common.HexInt{Int: *v}).String()
	if !odd || v.Sign() < 0 {
		return s
	}
	switch g.Int(0, 5) {
	case 0:
		return "0x0" + s[2:]
	case 1:
		return "0x" + strings.ToUpper(s[2:])
	case 2:
		return v.String()
	case 3:
		return "0x000" + s[2:]
	}
	return s
}

// JSON writes a value with any order of keys, spaces and escapes.
func (g G) JSON(v any, plain bool) []byte {
	var b strings.Builder
	sp := func() {
		if !plain && g.Chance(1, 12) {
			b.WriteString(Pick(g, " ", "\n", "\t", "\r\n", "   "))
		}
	}
	str := func(s string) {
		js, _ := json.Marshal(s)
		if plain || !g.Chance(1, 6) {
			b.Write(js)
			return
		}
		b.WriteByte('"')
		for _, c := range s {
			if c < 0x10000 && g.Chance(1, 2) {
				fmt.Fprintf(&b, `\u%04x`, c)
			} else {
				x, _ := json.Marshal(string(c))
				b.Write(x[1 : len(x)-1])
			}
		}
		b.WriteByte('"')
	}
	var put func(v any)
	put = func(v any) {
		sp()
		switch x := v.(type) {
		case string:
			str(x)
		case []any:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				put(e)
			}
			sp()
			b.WriteByte(']')
		case map[string]any:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if !plain {
				for i := len(ks) - 1; i > 0; i-- {
					j := g.Int(0, i)
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
			b.WriteByte('{')
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				sp()
				put(k)
				sp()
				b.WriteByte(':')
				put(x[k])
			}
			sp()
			b.WriteByte('}')
		default:
			js, err := json.Marshal(x)
			if err != nil {
				panic(kit.Broken(err.Error()))
			}
			b.Write(js)
		}
		sp()
	}
	put(v)
	return []byte(b.String())
}

// Clone a JSON value.
func Clone(v any) any {
	switch x := v.(type) {
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = Clone(e)
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = Clone(e)
		}
		return m
	}
	return v
}
