package p30

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

func num(v int64) *txs.Item {
	if v == 0 {
		return &txs.Item{B: []byte{0}}
	}
	b := big.NewInt(v).Bytes()
	if b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return &txs.Item{B: b}
}

func text(s string) *txs.Item { return &txs.Item{B: []byte(s)} }

func list(l ...*txs.Item) *txs.Item { return &txs.Item{List: true, Kids: l} }

var null = &txs.Item{Nil: true}

// forms that other nodes and users send.
func jsonForm(g txs.G, ts int64) map[string]any {
	who := g.Int(0, 3)
	switch g.Int(0, 4) {
	case 0:
		return map[string]any{"version": "0x3", "timestamp": sim.Num(ts), "dataType": "base", "data": map[string]any{"issueAmount": sim.Num(int64(g.Int(0, 50)))}}
	case 1:
		return map[string]any{"from": txs.Address(who), "to": others[1], "value": "0x1", "fee": "0x2386f26fc10000", "timestamp": fmt.Sprint(ts),
			"method": "icx_sendTransaction", "tx_hash": strings.Repeat("00", 32), "signature": strings.Repeat("A", 86) + "A="}
	case 2:
		m := map[string]any{}
		if err := json.Unmarshal(hworld.Genesis(config()), &m); err != nil {
			panic(err)
		}
		return m
	}
	m, _, _ := v3(g, txs.Address(who))
	if g.Chance(3, 4) {
		m["timestamp"] = sim.Num(ts)
		m["stepLimit"] = sim.Num(1 << 40)
		m["nid"] = "0x1"
		delete(m, "value")
	}
	return txs.Signed(txs.Wallet(who), m)
}

func binaryForm(r *kit.Rec, g txs.G, ts int64) *txs.Item {
	switch g.Int(0, 3) {
	case 0:
		return list(num(3), null.Copy(), num(ts), text("base"), text(`{"issueAmount":"0xa"}`))
	case 1:
		d := list(text("vote"), list(text("ab"), text("cd")), text("ctx"))
		return list(num(3), null.Copy(), num(ts), text("dsr"), d, num(sim.NID), null.Copy())
	}
	for {
		m, _, plain := v3(g, txs.Address(g.Int(0, 3)))
		if !plain {
			continue
		}
		m["timestamp"], m["stepLimit"], m["nid"] = sim.Num(ts), sim.Num(1<<40), "0x1"
		delete(m, "value")
		txs.Signed(txs.Wallet(0), m)
		tx, err := transaction.NewTransactionFromJSON(g.JSON(m, true))
		r.NoErr(err, "a proper transaction is refused")
		if x, _, ok := txs.Parse(tx.Bytes()); ok && x.List {
			return x
		}
	}
}

// spoil replaces something in a JSON value.
func spoil(g txs.G, v any) any {
	switch x := v.(type) {
	case map[string]any:
		ks := sorted(x)
		if len(ks) > 0 && g.Chance(9, 10) {
			k := txs.Pick(g, ks...)
			switch g.Int(0, 5) {
			case 0:
				delete(x, k)
			case 1:
				x[strings.ToUpper(k)] = bad(g)
			default:
				x[k] = spoil(g, x[k])
			}
			return x
		}
	case []any:
		if len(x) > 0 && g.Chance(3, 4) {
			i := g.Int(0, len(x)-1)
			x[i] = spoil(g, x[i])
			return x
		}
	}
	return bad(g)
}

func bad(g txs.G) any {
	return txs.Pick[any](g, nil, true, false, []any{}, map[string]any{}, "", "0x", "0x-1", "-0x1", "0x"+strings.Repeat("f", 70), strings.Repeat("9", 100),
		json.Number("1"), json.Number("-1"), json.Number("1e400"), json.Number("1.5"), json.Number("1e19"), "hx", "cx00", "hx"+strings.Repeat("0", 40), others[0],
		[]any{true}, map[string]any{"a": true}, []any{nil}, "\x00", "call", "deposit", "patch", "base", "dsr", "0x3", "0x2", "0x4", strings.Repeat("A", 88), g.Value(2))
}

// form draws the bytes of a damaged transaction.
func form(r *kit.Rec, g txs.G, ts int64) (bs []byte, how string) {
	if g.Chance(1, 2) {
		m := any(jsonForm(g, ts))
		for i := g.Int(0, 7) / 3; i > 0; i-- {
			m = spoil(g, m)
		}
		js := g.JSON(m, g.Chance(1, 2))
		if o, ok := m.(map[string]any); ok && g.Chance(2, 3) {
			if _, ok := o["from"]; ok {
				// signed by its sender after the damage
				for i := 0; i < 4; i++ {
					if o["from"] == txs.Address(i) {
						if tx, err := transaction.NewTransactionFromJSON(js); err == nil && len(tx.ID()) == 32 {
							o["signature"] = sign(i, tx.ID())
							js = g.JSON(m, true)
						}
					}
				}
			}
		}
		return bytes.TrimSpace(js), "JSON"
	}
	x := binaryForm(r, g, ts)
	for i := g.Int(0, 2); i > 0; i-- {
		mild(g, x)
	}
	for i := g.Int(0, 7) / 5; i > 0; i-- {
		change(g, x)
	}
	how = "binary"
	if len(x.Kids) >= 9 && g.Chance(3, 4) {
		if len(x.Kids[1].B) == 21 {
			for i := 0; i < 4; i++ {
				if bytes.Equal(x.Kids[1].B, txs.Wallet(i).Address().Bytes()) {
					if tx, err := transaction.NewTransaction(x.Bytes()); err == nil && len(tx.ID()) == 32 {
						x.Kids[8] = &txs.Item{B: txs.Sign(txs.Wallet(i), tx.ID())}
						how = "signed binary"
					}
				}
			}
		}
	}
	bs = x.Bytes()
	if g.Chance(1, 10) && len(bs) > 0 {
		bs[g.Int(0, len(bs)-1)] = byte(g.Int(0, 255))
	}
	if g.Chance(1, 20) {
		bs = bs[:g.Int(0, len(bs))]
	}
	return bs, how
}

// mild damage keeps the form.
func mild(g txs.G, x *txs.Item) {
	if len(x.Kids) == 0 {
		return
	}
	y := x.Kids[g.Int(0, len(x.Kids)-1)]
	if g.Chance(1, 3) && len(x.Kids) > 4 {
		y = x.Kids[len(x.Kids)-1]
	}
	switch {
	case y.List:
		if len(y.Kids) > 0 {
			mild(g, y)
		}
	case y.Nil:
		*y = txs.Pick(g, *num(int64(g.Int(0, 300))), *text("call"), *text("message"), *text("{}"), txs.Item{})
	case len(y.B) > 0 && (y.B[0] == '{' || y.B[0] == '[' || y.B[0] == '"'):
		if v, err := txs.Decode(y.B); err == nil {
			y.B = g.JSON(spoil(g, v), g.Chance(1, 2))
		}
	case len(y.B) == 21:
		*y = txs.Item{B: txs.Pick(g, append(append([]byte{}, y.B[:20]...), 9), append([]byte{1}, make([]byte, 20)...), make([]byte, 21), append([]byte{2}, y.B[1:]...))}
	case len(y.B) < 20 && g.Chance(1, 3):
		*y = txs.Pick(g, *num(int64(g.Int(0, 300))), *text("call"), *text("message"), *text("deposit"), *text("deploy"), *text("base"), txs.Item{Nil: true}, txs.Item{},
			txs.Item{B: []byte{0xff}}, txs.Item{B: []byte{0, 1}}, txs.Item{B: bytes.Repeat([]byte{0x7f}, 40)})
	default:
		if g.Chance(1, 4) {
			*y = txs.Item{Nil: true}
		}
	}
}

func sign(i int, id []byte) string {
	b, _ := json.Marshal(txs.Sign(txs.Wallet(i), id))
	return strings.Trim(string(b), `"`)
}

// deploys have to be kept out of blocks: there is no execution engine.
func deploys(tx module.Transaction) bool {
	return bytes.Contains(bytes.ToLower(tx.Bytes()), []byte("deploy"))
}

// Bytes of any kind are refused or understood, the same way every time.
func TestGarbage(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "damaged bytes are understood as a transaction", Quick: 50000, Thorough: 2000000}, func(r *kit.Rec) {
		sim.Silence()
		g := txs.G{T: r.T}
		bs, how := form(r, g, 2000000)
		r.Step("%s %q", how, bs)
		r.Step("hex %x", bs)
		sides := func() (tx transaction.Transaction, err error) {
			if how == "JSON" && g.Chance(1, 2) {
				return transaction.NewTransactionFromJSON(bs)
			}
			return transaction.NewTransaction(bs)
		}
		tx, err := sides()
		if err != nil {
			r.Label("not parsed")
			return
		}
		id := tx.ID()
		hash := tx.Hash()
		verr := tx.Verify()
		r.Need(len(hash) == 32, "the hash is %x", hash)
		r.Need(verr != nil || len(id) == 32, "a transaction without an identifier is accepted")
		tx.From()
		tx.To()
		tx.Group()
		tx.Nonce()
		tx.Timestamp()
		tx.ValidateNetwork(1)
		if verr == nil {
			o, err := tx.ToJSON(module.JSONVersionLast)
			r.NoErr(err, "an accepted transaction has no JSON")
			_, err = json.Marshal(o)
			r.NoErr(err, "an accepted transaction has no JSON")
		} else {
			tx.ToJSON(module.JSONVersionLast)
		}
		tx2, err := transaction.NewTransaction(tx.Bytes())
		if err != nil && verr != nil {
			r.Label("refused " + how)
			return
		}
		r.NoErr(err, "the node does not read its own bytes %x", tx.Bytes())
		r.Need(bytes.Equal(tx2.Bytes(), tx.Bytes()), "the bytes change: %x to %x", tx.Bytes(), tx2.Bytes())
		r.Need(bytes.Equal(tx2.Hash(), hash), "the hash changes: %x to %x", hash, tx2.Hash())
		r.Need(bytes.Equal(tx2.ID(), id), "the identifier changes: %x to %x", id, tx2.ID())
		v2 := tx2.Verify()
		r.Need((v2 == nil) == (verr == nil), "accepted or not: %v, then %v", verr, v2)
		if verr == nil {
			r.Label("accepted " + how)
		} else {
			r.Label("refused " + how)
		}
		r.NonTrivial("%s", r.TraceKey())
	})
}

func config() hmodel.Config {
	c := hmodel.Config{Rev: 7, StepPrice: 0, TermPeriod: 5, Cycle: 360, Limit: 100, Budget: hworld.Coins(10), USDT: hworld.Coins(1),
		Issue: big.NewInt(10), Accounts: map[string]*big.Int{}}
	for i := 0; i < 4; i++ {
		c.Accounts[txs.Address(i)] = hworld.Coins(10)
	}
	return c
}

// Whatever users and peers send, and whatever is in a proposed block, the
// node goes on and executes the next block.
func TestNode(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "the node takes some of the damaged transactions", Quick: 1400, Thorough: 12000, Hang: 100 * time.Second}, func(r *kit.Rec) {
		g := txs.G{T: r.T}
		n := sim.NewNode(sim.Options{Dir: r.TempDir(), Concurrency: txs.Pick(g, 1, 1, 4)})
		defer n.Close()
		n.Start()
		c := config()
		c.Rev = txs.Pick(g, 0, 2, 4, 5, 7)
		_, err := n.Genesis(hworld.Genesis(c))
		r.NoErr(err, "the genesis block fails")
		h := int64(1)
		taken := 0
		csi := func() module.ConsensusInfo { return sim.CSI(others[1], n.Last().NextValidators(), nil) }
		good := func(i int64) module.Transaction {
			m := map[string]any{"version": "0x3", "from": txs.Address(0), "to": txs.Address(1), "value": "0x1", "stepLimit": sim.Num(1 << 40),
				"timestamp": sim.Num(hworld.TS(h)), "nid": "0x1", "nonce": sim.Num(i)}
			tx, err := transaction.NewTransactionFromJSON(g.JSON(txs.Signed(txs.Wallet(0), m), true))
			r.NoErr(err, "a proper transaction is refused")
			return tx
		}
		for i := g.Int(2, 8); i > 0; i-- {
			bs, how := form(r, g, hworld.TS(h)+int64(g.Int(-3, 3)))
			r.Step("%s %q", how, bs)
			r.Step("hex %x", bs)
			switch g.Int(0, 3) {
			case 0:
				if how == "JSON" {
					if _, err = n.SM.SendTransaction(n.Last().Result(), h-1, bs); err == nil {
						taken++
						r.Label("sent by users and taken")
					}
					continue
				}
				fallthrough
			case 1:
				r.Step("from a peer")
				if err = n.Receive(txs.Pick(g, sim.PropagateTx, sim.ResponseTx), bs); err == nil {
					taken++
					r.Label("sent by peers and taken")
				}
			default:
				tx, err := n.SM.TransactionFromBytes(bs, module.BlockVersion2)
				if err != nil || deploys(tx) {
					continue
				}
				base, err := n.Base(h, hworld.TS(h), csi())
				r.NoErr(err, "no base transaction")
				l := []module.Transaction{tx}
				if g.Chance(1, 2) {
					l = []module.Transaction{good(1), tx}
				}
				if base != nil && g.Chance(3, 4) {
					l = append([]module.Transaction{base}, l...)
				}
				r.Step("in a block of %d", len(l))
				if _, err = n.Try(l, h, hworld.TS(h), csi(), false); err == nil {
					taken++
					r.Label("a block with it is accepted")
				} else {
					r.Label("a block with it is refused")
				}
			}
			if g.Chance(1, 2) {
				l := []module.Transaction{good(2)}
				base, err := n.Base(h, hworld.TS(h), csi())
				r.NoErr(err, "no base transaction")
				if base != nil {
					l = append([]module.Transaction{base}, l...)
				}
				b, err := n.Run(l, h, hworld.TS(h), csi(), false)
				r.NoErr(err, "block %d fails", h)
				r.Need(b.Receipts[len(l)-1].Status == module.StatusSuccess, "a proper transaction fails")
				h++
			}
		}
		if taken > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
