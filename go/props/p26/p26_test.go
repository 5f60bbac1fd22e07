package p26

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

// ops of the next block.
func ops(g hworld.G, w *hworld.World) []hmodel.Op {
	l := []hmodel.Op{}
	m := w.M
	if w.H == 1 {
		return g.Setup(1)
	}
	for i := g.Int(0, 3); i > 0; i-- {
		switch k := g.Int(0, 25); {
		case k < 6:
			l = append(l, g.Transfer(m))
		case k < 18:
			l = append(l, g.PlanetOp(m, w.H))
		case k < 19 || m.IssueStart == 0:
			l = append(l, g.Start(w.H))
		case k < 20:
			l = append(l, g.Revision(m))
		case k < 23:
			l = append(l, g.Report(m, w.H))
		default:
			l = append(l, g.Claim(m, w.H))
		}
	}
	return l
}

func world(r *kit.Rec, look hworld.Look) (hworld.G, *hworld.World) {
	g := hworld.G{T: r.T}
	w := hworld.New(r, g.Config())
	w.Look = look
	return g, w
}

var coins = hworld.Look{Status: func(hmodel.Op) bool { return false }, Events: func(string) bool { return false }, Balances: true}

// Coins come from the issue only, nothing but the platform's rules moves them,
// and no coin gets lost or doubled on the way.
func TestCoins(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "coins are issued, and coins are claimed, or burnt, or distributed at the end of a term", Quick: 3000, Thorough: 40000}, func(r *kit.Rec) {
		g, w := world(r, coins)
		defer w.N.Close()
		for n := g.Int(5, 40); n > 0; n-- {
			w.Block(ops(g, w), nil, g.Chance(1, 2))
		}
		w.Labels()
		if w.Seen["Issued"] > 0 && (w.Seen["RewardClaimed"] > 0 || w.Seen["ICXBurnedV2"] > 0 || w.Seen["Issued"] > 1 && w.Seen["Transfer"] > 0) {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

// tampered makes a base transaction that differs from the right one.
func tampered(g hworld.G, ts int64, issue *big.Int) (transaction.Transaction, string, bool) {
	v := map[string]any{"version": "0x3", "dataType": "base", "timestamp": sim.Num(ts)}
	kind := hworld.Pick(g, "more", "less", "zero", "negative", "double", "no data", "unknown field", "list", "text", "wrong type")
	amount := func(b *big.Int) { v["data"] = map[string]any{"issueAmount": sim.Hex(b)} }
	always := false
	switch kind {
	case "more":
		amount(new(big.Int).Add(issue, big.NewInt(int64(g.Int(1, 1000)))))
	case "less":
		amount(new(big.Int).Sub(issue, big.NewInt(int64(g.Int(1, 1000)))))
	case "zero":
		amount(new(big.Int))
	case "negative":
		amount(new(big.Int).Neg(issue))
	case "double":
		amount(new(big.Int).Add(issue, issue))
	case "no data":
		always = true
	case "unknown field":
		v["data"] = map[string]any{"issueAmount": sim.Hex(issue), "result": "0x1"}
		always = true
	case "list":
		v["data"] = []any{sim.Hex(issue)}
		always = true
	case "text":
		v["data"] = sim.Hex(issue)
		always = true
	case "wrong type":
		v["data"] = map[string]any{"issueAmount": []any{}}
		always = true
	}
	js, _ := json.Marshal(v)
	tx, err := transaction.NewTransactionFromJSON(js)
	if err != nil {
		return nil, kind, true
	}
	return tx, kind, always
}

// A block whose base transaction is not the one that the rules ask for is refused.
func TestBase(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "a block with a wrong base transaction at the start of a term is refused", Quick: 1500, Thorough: 20000}, func(r *kit.Rec) {
		g, w := world(r, coins)
		defer w.N.Close()
		starts := 0
		w.Before = func(txs []module.Transaction, h int64, csi module.ConsensusInfo) {
			if g.Chance(1, 3) {
				return
			}
			need := w.M.BaseNeeded(h)
			term, i := w.M.TermOf(h)
			issuing := i == 0 && term < w.M.Limit
			rest, what := txs, ""
			var list []module.Transaction
			if !need {
				bad, kind, _ := tampered(g, hworld.TS(h), w.M.IssueAmount)
				if bad == nil {
					return
				}
				at := g.Int(0, len(rest))
				list = append(append(append(list, rest[:at]...), bad), rest[at:]...)
				what = "a base transaction (" + kind + ") that is not needed"
			} else {
				rest = txs[1:]
				switch k := g.Int(0, 9); {
				case k == 0:
					list, what = rest, "no base transaction"
				case k == 1:
					if len(rest) == 0 {
						return
					}
					at := g.Int(1, len(rest))
					list = append(append(append(list, rest[:at]...), txs[0]), rest[at:]...)
					what = "the base transaction at a later place"
				case k == 2:
					bad, _, _ := tampered(g, hworld.TS(h), w.M.BaseIssue(h))
					if bad == nil {
						return
					}
					at := g.Int(1, len(txs))
					list = append(append(append(list, txs[:at]...), bad), txs[at:]...)
					what = "another base transaction at a later place"
				default:
					bad, kind, always := tampered(g, hworld.TS(h), w.M.BaseIssue(h))
					if bad == nil || !always && !issuing {
						return
					}
					if kind == "negative" && w.M.BaseIssue(h).Sign() == 0 || kind == "zero" && w.M.BaseIssue(h).Sign() == 0 {
						return
					}
					list = append(append(list, bad), rest...)
					what = "a base transaction with a wrong amount (" + kind + ")"
				}
			}
			validated := g.Chance(1, 2)
			r.Step("block %d is tried with %s, validated before: %v", h, what, validated)
			_, err := w.N.Try(list, h, hworld.TS(h), csi, validated)
			r.Need(err != nil, "block %d is accepted with %s", h, what)
			r.Label("refused: " + what)
			if issuing {
				starts++
			}
		}
		for n := g.Int(5, 25); n > 0; n-- {
			w.Block(ops(g, w), nil, g.Chance(1, 2))
		}
		if starts > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
