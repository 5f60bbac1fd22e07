package p30

import (
	"bytes"
	"encoding/json"
	"math/big"
	"strings"
	"testing"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

var others = []string{"cx0000000000000000000000000000000000000000", "hx00000000000000000000000000000000000000a1",
	"cx00000000000000000000000000000000000000a5", "hx1000000000000000000000000000000000000000"}

// v3 draws a version 3 transaction; regular ones have to be accepted.
func v3(g txs.G, from string) (m map[string]any, regular, plain bool) {
	odd := g.Chance(1, 4)
	regular, plain = true, true
	num := func(v *big.Int) any {
		x := g.Hex(v, odd && g.Chance(1, 3))
		if x != sim.Hex(v) {
			plain = false
		}
		return x
	}
	m = map[string]any{"version": "0x3", "from": from, "to": txs.Pick(g, others...),
		"stepLimit": num(g.Number()), "timestamp": num(big.NewInt(int64(g.Int(0, 1<<50))))}
	if g.Chance(1, 3) {
		m["to"] = txs.Address(g.Int(0, 3))
	}
	if g.Chance(2, 3) {
		m["value"] = num(g.Number())
	}
	if g.Chance(2, 3) {
		m["nid"] = num(big.NewInt(int64(g.Int(0, 3))))
	}
	if g.Chance(1, 2) {
		v := g.Number()
		if g.Chance(1, 4) {
			v.Neg(v)
		}
		m["nonce"] = num(v)
	}
	switch g.Int(0, 4) {
	case 0:
		m["dataType"], m["data"] = "call", map[string]any{"method": "m" + g.Str(), "params": g.Value(3)}
	case 1:
		m["dataType"], m["data"] = "message", g.Value(2)
	case 2:
		m["dataType"], m["data"] = "deposit", g.Value(2)
	case 3:
		m["data"] = g.Value(3)
		if g.Chance(1, 4) {
			// there is no such type
			s := "x" + g.Str()
			m["dataType"], regular = s, false
			if strings.ContainsAny(s, `\.{}[]`) {
				plain = false
			}
		}
	}
	if m["data"] == nil {
		delete(m, "data")
		if m["dataType"] == "deposit" {
			delete(m, "dataType")
		}
	}
	if g.Chance(1, 6) {
		m[txs.Pick(g, "memo", "fee", "txhash2", "extra.field", "x{", "method")] = num(g.Number())
		plain = false
	}
	return
}

// content is everything a transaction says, apart from its signature.
func content(r *kit.Rec, t transaction.Transaction) map[string]any {
	o, err := t.ToJSON(module.JSONVersionLast)
	r.NoErr(err, "no JSON of the transaction")
	js, err := json.Marshal(o)
	r.NoErr(err, "no JSON of the transaction")
	v, err := txs.Decode(js)
	r.NoErr(err, "the JSON of the transaction is wrong: %s", js)
	return v.(map[string]any)
}

// same tells whether a field says the same: numbers may be written differently.
func same(a, b any, key string) bool {
	switch key {
	case "version", "value", "stepLimit", "timestamp", "nid", "nonce":
		n := func(v any) string {
			s, ok := v.(string)
			if !ok {
				return txs.Ser(v)
			}
			x, ok := new(big.Int).SetString(strings.ToLower(s), 0)
			if !ok {
				x, ok = new(big.Int).SetString(s, 10)
			}
			if !ok {
				return s
			}
			return x.String()
		}
		if (a == nil) != (b == nil) {
			return false
		}
		return a == nil || n(a) == n(b)
	}
	return txs.Ser(a) == txs.Ser(b)
}

func equal(a, b map[string]any) string {
	for _, k := range []string{"version", "from", "to", "value", "stepLimit", "timestamp", "nid", "nonce", "dataType", "data"} {
		x, ok := a[k]
		y, ok2 := b[k]
		if ok != ok2 || ok && !same(x, y, k) {
			return k
		}
	}
	return ""
}

func fields(r *kit.Rec, m map[string]any, t transaction.Transaction) {
	num := func(k string) string {
		v, ok := m[k]
		if !ok {
			return ""
		}
		s := strings.ToLower(v.(string))
		x, ok := new(big.Int).SetString(s, 0)
		if !ok {
			x, _ = new(big.Int).SetString(s, 10)
		}
		return x.String()
	}
	r.Need(t.From().String() == m["from"], "the sender is %s", t.From())
	r.Need(t.To().String() == m["to"], "the receiver is %s", t.To())
	r.Need(big.NewInt(t.Timestamp()).String() == num("timestamp"), "the time is %d", t.Timestamp())
	n := ""
	if x := t.Nonce(); x != nil {
		n = x.String()
	}
	r.Need(n == num("nonce"), "the nonce is %q", n)
	r.Need(t.Version() == 3, "the version is %d", t.Version())
	for i := 0; i < 4; i++ {
		want := num("nid") == "" || num("nid") == sim.Num(int64(i))[2:]
		r.Need(t.ValidateNetwork(i) == want, "network %d: %v", i, t.ValidateNetwork(i))
	}
}

// A transaction is identified by what it says, however it is written, and
// nobody but the owner of the sending account can say it.
func TestSigned(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "an accepted transaction was changed after signing", Quick: 28000, Thorough: 1500000}, func(r *kit.Rec) {
		sim.Silence()
		g := txs.G{T: r.T}
		who := g.Int(0, 3)
		w := txs.Wallet(who)
		m, regular, plain := v3(g, txs.Address(who))
		if txs.Leading(m["data"]) {
			r.Label("known: list with a leading empty text")
			return
		}
		txs.Signed(w, m)
		if g.Chance(1, 4) {
			m["txHash"] = txs.Pick(g, "0x12", "0x"+strings.Repeat("0", 64))
			plain = false
		}
		js := g.JSON(m, plain && g.Chance(1, 2))
		r.Step("transaction %s", js)
		r.Step("text %s", txs.Text(m))
		tx, err := transaction.NewTransactionFromJSON(js)
		r.NoErr(err, "a proper transaction is refused")
		if !regular {
			r.Need(bytes.Equal(tx.ID(), txs.Hash(m)), "the identifier is %x, not %x", tx.ID(), txs.Hash(m))
			r.Need(tx.Verify() != nil, "a transaction with an unknown type is accepted")
			r.Label("unknown types")
			return
		}
		check := func(tx transaction.Transaction, how string) {
			r.Need(bytes.Equal(tx.ID(), txs.Hash(m)), "%s: the identifier is %x, not %x", how, tx.ID(), txs.Hash(m))
			r.NoErr(tx.Verify(), "%s: a properly signed transaction is refused", how)
			fields(r, m, tx)
			k := equal(m, content(r, tx))
			r.Need(k == "", "%s: another %s is reported: %v", how, k, content(r, tx)[k])
		}
		check(tx, "from JSON")
		tx2, err := transaction.NewTransaction(tx.Bytes())
		r.NoErr(err, "the node does not read its own bytes %x", tx.Bytes())
		check(tx2, "from bytes")
		r.Need(bytes.Equal(tx2.Bytes(), tx.Bytes()) && bytes.Equal(tx2.Hash(), tx.Hash()), "the bytes change:\n%x\n%x", tx.Bytes(), tx2.Bytes())
		tx3, err := transaction.NewTransaction(js)
		if js[0] == '{' {
			r.NoErr(err, "JSON from another node is refused")
			check(tx3, "JSON as bytes")
		}
		before := content(r, tx)
		for i := g.Int(1, 4); i > 0; i-- {
			if tx.Bytes()[0] != '{' && g.Chance(1, 2) {
				binary(r, g, tx, before)
			} else {
				jsonTamper(r, g, m, js, before)
			}
		}
	})
}

// jsonTamper changes a signed transaction in its JSON form.
func jsonTamper(r *kit.Rec, g txs.G, m map[string]any, js []byte, before map[string]any) {
	n := txs.Clone(m).(map[string]any)
	ks := []string{"version", "from", "to", "value", "stepLimit", "timestamp", "nid", "nonce", "dataType", "data", "signature"}
	k := txs.Pick(g, ks...)
	switch {
	case g.Chance(1, 8):
		delete(n, k)
	case g.Chance(1, 6):
		n[txs.Pick(g, strings.ToUpper(k), strings.ToUpper(k[:1])+k[1:], "x"+k)] = txs.Clone(n[k])
		if g.Chance(1, 2) {
			delete(n, k)
		}
	case k == "from" || k == "to":
		n[k] = txs.Pick(g, txs.Address(g.Int(0, 3)), others[0], others[1], others[2])
	case k == "dataType":
		n[k] = txs.Pick(g, "call", "message", "deposit", "call.from", "")
	case k == "data":
		n[k] = leaf(g, n[k])
	case k == "signature":
		b := []byte(n[k].(string))
		b[g.Int(0, len(b)-1)] = txs.Pick(g, byte('A'), 'B', 'g', '0', '/', 'w')
		n[k] = string(b)
	default:
		n[k] = txs.Pick[any](g, any(sim.Num(int64(g.Int(0, 5)))), g.Hex(g.Number(), true), any(sim.Hex(g.Number())), any("0x-1"), any("-0x1"), any(json.Number("3")), nil)
	}
	if txs.Bool(n) || txs.Leading(n["data"]) {
		return
	}
	bs := g.JSON(n, false)
	if g.Chance(1, 8) {
		// another value under the same name before the signed one
		x := map[string]any{k: n[k]}
		a := bytes.TrimSpace(g.JSON(x, true))
		bs = append(append(append([]byte{}, a[:len(a)-1]...), ','), bytes.TrimSpace(js)[1:]...)
	}
	raw := g.Chance(1, 2)
	judge(r, bs, raw, before, "JSON")
}

func leaf(g txs.G, v any) any {
	switch x := v.(type) {
	case []any:
		if len(x) > 0 && g.Chance(3, 4) {
			i := g.Int(0, len(x)-1)
			x[i] = leaf(g, x[i])
			return x
		}
		if g.Chance(1, 2) {
			return append(x, g.Value(0))
		}
	case map[string]any:
		ks := []string{}
		for _, k := range sorted(x) {
			ks = append(ks, k)
		}
		if len(ks) > 0 && g.Chance(3, 4) {
			k := txs.Pick(g, ks...)
			if g.Chance(1, 5) {
				x[g.Str()] = x[k]
				delete(x, k)
			} else {
				x[k] = leaf(g, x[k])
			}
			return x
		}
		if g.Chance(1, 2) {
			x[g.Str()] = g.Value(0)
			return x
		}
	}
	return g.Value(1)
}

func sorted(m map[string]any) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// judge accepts the changed transaction only when it says the same.
func judge(r *kit.Rec, bs []byte, raw bool, before map[string]any, what string) {
	var tx transaction.Transaction
	var err error
	if raw {
		tx, err = transaction.NewTransaction(bs)
	} else {
		tx, err = transaction.NewTransactionFromJSON(bs)
	}
	r.Step("changed to %q", bs)
	if err != nil {
		r.Label("changed: not parsed")
		return
	}
	if err := tx.Verify(); err != nil {
		r.Label("changed: refused")
		r.NonTrivial("%s", r.TraceKey())
		return
	}
	if a := tx.From(); a == nil || a.String() == others[0] {
		// nobody's: what it may do is decided by the block
		r.Label("changed: of the system")
		return
	}
	k := equal(before, content(r, tx))
	r.Need(k == "", "a changed transaction (%s) is accepted: %s is %v, was %v", what, k, content(r, tx)[k], before[k])
	id := content(r, tx)["txHash"]
	r.Need(id == before["txHash"], "the same content has another identifier: %v, was %v", id, before["txHash"])
	r.Label("changed: says the same")
}

// binary changes a signed transaction in its binary form.
func binary(r *kit.Rec, g txs.G, tx transaction.Transaction, before map[string]any) {
	x, rest, ok := txs.Parse(tx.Bytes())
	r.Need(ok && len(rest) == 0 && x.List && bytes.Equal(x.Bytes(), tx.Bytes()), "the bytes are not a list: %x", tx.Bytes())
	y := x.Copy()
	change(g, y)
	bs := y.Bytes()
	if g.Chance(1, 5) {
		bs = append([]byte(nil), tx.Bytes()...)
		bs[g.Int(0, len(bs)-1)] ^= 1 << uint(g.Int(0, 7))
	}
	if bytes.Equal(bs, tx.Bytes()) || bs[0] == '{' {
		return
	}
	if z, _, ok := txs.Parse(bs); ok && z.List && len(z.Kids) > 10 && !z.Kids[10].Nil {
		if v, err := txs.Decode(z.Kids[10].B); err == nil && txs.Leading(v) {
			return
		}
	}
	judge(r, bs, true, before, "bytes")
}

// change alters an item somewhere in the tree.
func change(g txs.G, x *txs.Item) {
	l := x.All()
	y := l[g.Int(0, len(l)-1)]
	if g.Chance(2, 3) && len(x.Kids) > 0 {
		y = x.Kids[g.Int(0, len(x.Kids)-1)]
	}
	switch g.Int(0, 9) {
	case 0:
		*y = txs.Item{Nil: true}
	case 1:
		*y = txs.Item{}
	case 2:
		*y = txs.Item{List: true}
	case 3:
		if y.List && len(y.Kids) > 0 {
			i := g.Int(0, len(y.Kids)-1)
			y.Kids = append(y.Kids[:i], y.Kids[i+1:]...)
		} else {
			y.B = append([]byte{0}, y.B...)
		}
	case 4:
		if y.List {
			y.Kids = append(y.Kids, &txs.Item{B: []byte{byte(g.Int(0, 255))}})
		} else {
			y.B = append(append([]byte{}, y.B...), byte(g.Int(0, 255)))
		}
	case 5:
		if !y.List && !y.Nil && len(y.B) > 0 {
			i := g.Int(0, len(y.B)-1)
			y.B = append([]byte{}, y.B...)
			y.B[i] ^= byte(1 << uint(g.Int(0, 7)))
		} else {
			*y = txs.Item{B: []byte(g.Str())}
		}
	case 6:
		*y = txs.Item{B: g.JSON(g.Value(2), false)}
	case 7:
		*y = txs.Item{B: []byte(txs.Pick(g, "true", "[false]", `{"a":true}`, "null", "{", `"a`, "1e999", "call", "deploy", "patch", "base", "dsr", "{}", "[]", "1.5", `""`, " ", "\xff"))}
	case 8:
		*y = txs.Item{B: []byte(txs.Pick(g, "\x00", "\x03", "\x02", "\xff", "\x80", "\x00\x03", strings.Repeat("\xff", 9), strings.Repeat("\x00", 21), strings.Repeat("\x01", 65)))}
	case 9:
		z := l[g.Int(0, len(l)-1)].Copy()
		if len(z.All()) < 30 {
			*y = *z
		}
	}
}
