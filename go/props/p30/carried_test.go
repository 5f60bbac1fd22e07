package p30

import (
	"testing"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"

	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// A node executes only what its sender signed for this network, wherever it
// comes from.
func TestCarried(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "some transactions are not properly signed", Quick: 2100, Thorough: 60000}, func(r *kit.Rec) {
		g := txs.G{T: r.T}
		n := sim.NewNode(sim.Options{Dir: r.TempDir(), Concurrency: txs.Pick(g, 1, 1, 4)})
		defer n.Close()
		n.Start()
		c := config()
		c.Rev = txs.Pick(g, 0, 2, 4, 5, 7)
		_, err := n.Genesis(hworld.Genesis(c))
		r.NoErr(err, "the genesis block fails")
		h, bads := int64(1), 0
		csi := func() module.ConsensusInfo { return sim.CSI(others[1], n.Last().NextValidators(), nil) }
		due := map[string]bool{} // taken into the pool
		what := map[string]string{}
		nonce := int64(0)
		draw := func() (js []byte, bs []byte, id string, bad string) {
			nonce++
			to := txs.Address(g.Int(0, 2))
			if g.Chance(1, 4) {
				to = txs.Pick(g, hmodel.Treasury, others[1])
			}
			v := int64(g.Int(0, 5))
			m := map[string]any{"version": "0x3", "from": txs.Address(0), "to": to, "value": sim.Num(v), "stepLimit": sim.Num(1 << 40),
				"timestamp": sim.Num(hworld.TS(h) + int64(g.Int(-1000, 1000))), "nid": "0x1", "nonce": sim.Num(nonce)}
			if g.Chance(1, 4) {
				m["dataType"], m["data"] = "message", "0x"+txs.Pick(g, "", "01", "cafe")
			}
			switch g.Int(0, 11) {
			case 0:
				bad = "signed by somebody else"
				txs.Signed(txs.Wallet(g.Int(1, 3)), m)
			case 1:
				bad = "changed after signing: " + txs.Pick(g, "to", "value", "stepLimit", "timestamp", "nonce", "nid")
				txs.Signed(txs.Wallet(0), m)
				switch k := bad[len("changed after signing: "):]; k {
				case "to":
					for old := to; to == old; {
						to = txs.Pick(g, txs.Address(3), others[2], others[3])
					}
					m[k] = to
				case "value":
					m[k] = sim.Num(v + 1)
				case "stepLimit":
					m[k] = sim.Num(1<<40 + 1)
				case "timestamp":
					m[k] = sim.Num(hworld.TS(h) + 1001)
				case "nonce":
					m[k] = sim.Num(nonce + 1000)
				case "nid":
					delete(m, "nid")
				}
			case 2:
				bad = "for another network"
				m["nid"] = txs.Pick(g, "0x2", "0x0", "0x101", "0x10000000000000001")
				txs.Signed(txs.Wallet(0), m)
			case 3:
				bad = "without signature"
				if g.Chance(1, 2) {
					txs.Signed(txs.Wallet(0), m)
					s := []byte(m["signature"].(string))
					i := g.Int(0, 80)
					s[i] = txs.Pick(g, byte('A'), 'B', 'g', '0', '/', 'w')
					if string(s) == m["signature"].(string) {
						s[i] = 'x'
					}
					m["signature"] = string(s)
				}
			default:
				txs.Signed(txs.Wallet(0), m)
			}
			js = g.JSON(m, true)
			r.Step("%s %s", js, bad)
			tx, err := transaction.NewTransactionFromJSON(js)
			if err != nil {
				r.Need(bad != "", "a proper transaction is refused: %v", err)
				return js, nil, "", bad
			}
			what[string(tx.ID())] = bad
			return js, tx.Bytes(), string(tx.ID()), bad
		}
		block := func(l []module.Transaction, run bool) (*sim.Block, int, error) {
			base, err := n.Base(h, hworld.TS(h), csi())
			r.NoErr(err, "no base transaction")
			at := 0
			if base != nil {
				l = append([]module.Transaction{base}, l...)
				at = 1
			}
			if run {
				b, err := n.Run(l, h, hworld.TS(h), csi(), false)
				return b, at, err
			}
			b, err := n.Try(l, h, hworld.TS(h), csi(), false)
			return b, at, err
		}
		for i := g.Int(3, 20); i > 0; i-- {
			js, bs, id, bad := draw()
			if bad != "" {
				bads++
				r.Label("%s", bad)
			}
			switch k := g.Int(0, 3); {
			case k == 0:
				_, err := n.SM.SendTransaction(n.Last().Result(), h-1, js)
				r.Need((err == nil) == (bad == ""), "sent by a user: %v", err)
				due[id] = due[id] || err == nil
			case k == 1 && bs != nil:
				err := n.Receive(txs.Pick(g, sim.PropagateTx, sim.ResponseTx), bs)
				r.Need((err == nil) == (bad == ""), "sent by a peer: %v", err)
				due[id] = due[id] || err == nil
			case k == 2 && bs != nil:
				tx, err := n.SM.TransactionFromBytes(bs, module.BlockVersion2)
				r.NoErr(err, "the node does not read its own bytes")
				l := []module.Transaction{tx}
				want := bad == ""
				for j := g.Int(0, 3); j > 0; j-- {
					_, bs2, _, bad2 := draw()
					if bs2 == nil {
						continue
					}
					tx, err := n.SM.TransactionFromBytes(bs2, module.BlockVersion2)
					r.NoErr(err, "the node does not read its own bytes")
					l = append(l, tx)
					want = want && bad2 == ""
				}
				run := g.Chance(1, 2)
				before := n.Balance(txs.Address(0))
				b, at, err := block(l, run)
				r.Step("a block of %d: %v", len(l), err == nil)
				r.Need((err == nil) == want, "a block with them is accepted: %v, should be %v (%v)", err == nil, want, err)
				if err == nil {
					for _, x := range b.Receipts[at:] {
						r.Need(x.Status == module.StatusSuccess, "a proper transaction fails: %v", x.Status)
					}
					if run {
						h++
					}
				} else {
					r.Need(n.Balance(txs.Address(0)).Cmp(before) == 0, "a refused block changes a balance")
				}
			default:
				b, err := n.Propose(h, hworld.TS(h), csi())
				r.NoErr(err, "no proposal")
				got := 0
				for _, tx := range b.Txs {
					if s, ok := what[string(tx.ID())]; ok {
						r.Need(s == "" && due[string(tx.ID())], "a proposal contains a transaction which is %s", s)
						got++
					}
				}
				r.Step("a proposal with %d transactions", got)
				if got > 0 {
					r.Label("proposed")
				}
			}
		}
		if bads > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
