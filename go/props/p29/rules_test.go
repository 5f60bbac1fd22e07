package p29

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

// Prices, costs, limits and revisions change within a block; the rest of it
// has the same results whether it runs one by one or at the same time.
func TestRules(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "the rules change before other transactions of a block that runs at the same time", Quick: 800, Thorough: 60000, Sure: true}, func(r *kit.Rec) {
		g := hworld.G{T: r.T}
		c := g.Config()
		c.StepPrice = hworld.Pick(g, int64(1), 7, 12500000000)
		m := hworld.Pick(g, 3, 6, 12)
		users := []string{}
		for i := 0; i < m; i++ {
			users = append(users, hworld.Owner(i))
			c.Accounts[users[i]] = hworld.Coins(1000000000)
		}
		one := &node{db: db.NewMapDB(), conc: 1, dir: r.TempDir()}
		o := &node{db: db.NewMapDB(), conc: hworld.Pick(g, 2, 3, 4, 8), dir: r.TempDir()}
		for _, x := range []*node{one, o} {
			x.start()
			defer func() { x.n.Close() }()
			_, err := x.n.Genesis(hworld.Genesis(c))
			r.NoErr(err, "the genesis block fails")
		}
		r.Step("%d users, concurrency %d", m, o.conc)
		nonce, changes := int64(0), 0
		csi := sim.CSI("hx"+fmt.Sprintf("%040x", 1), one.n.Last().NextValidators(), nil)
		for h := int64(1); h <= int64(g.Int(2, 4)); h++ {
			var txs []module.Transaction
			line := ""
			add := func(from, to string, v int64, method string, params any) {
				nonce++
				txs = append(txs, sim.NewTx(from, to, big.NewInt(v), method, params, hworld.TS(h), nonce))
				line += fmt.Sprintf("; %s %s", from[:8]+from[len(from)-3:], method)
				if params != nil {
					line += fmt.Sprint(params)
				}
			}
			user := func() string { return users[g.Int(0, m-1)] }
			for n := g.Int(2, 12); n > 0; n-- {
				switch g.Int(0, 3) {
				case 0:
					add(hmodel.Governance, hmodel.System, 0, "setStepPrice", map[string]any{"price": sim.Num(int64(g.Int(1, 1000)))})
				case 1:
					add(hmodel.Governance, hmodel.System, 0, "setStepCost", map[string]any{
						"type": hworld.Pick(g, "default", "contractCall", "input", "get", "set"), "cost": sim.Num(int64(g.Int(1, 1000)))})
				case 2:
					add(hmodel.Governance, hmodel.System, 0, "setMaxStepLimit", map[string]any{
						"contextType": "invoke", "limit": sim.Num(int64(hworld.Pick(g, 100, 50000, 1000000)))})
				case 3:
					add(hmodel.Governance, hmodel.System, 0, "setRevision", map[string]any{"code": sim.Num(int64(g.Int(0, 7)))})
				}
				changes++
				for i := g.Int(0, 3); i > 0; i-- {
					add(user(), user(), 1, "", nil)
				}
				for i := g.Int(0, 2); i > 0; i-- {
					switch g.Int(0, 2) {
					case 0:
						add(user(), hmodel.System, 0, "registerValidator", map[string]any{
							"owner": user(), "nodePublicKey": fmt.Sprintf("0x%x", hmodel.KeyOf(g.Int(0, 40))),
							"grade": "sub", "name": "n"})
					case 1:
						add(hmodel.Governance, hmodel.System, 0, "registerValidator", map[string]any{
							"owner": user(), "nodePublicKey": fmt.Sprintf("0x%x", hmodel.KeyOf(g.Int(0, 40))),
							"grade": "sub", "name": "n"})
					case 2:
						add(user(), hmodel.System, 0, "claimPlanetReward", map[string]any{"ids": []any{"0x1"}})
					}
				}
			}
			r.Step("block %d%s", h, line)
			b, err := one.n.Run(txs, h, hworld.TS(h), csi, true)
			r.NoErr(err, "block %d fails", h)
			for n := g.Int(1, 8); n > 0; n-- {
				l, err := o.n.Reparse(txs)
				r.NoErr(err, "block %d: its transactions can not be read", h)
				a, err := o.n.Try(l, h, hworld.TS(h), csi, true)
				r.NoErr(err, "block %d fails in parallel (concurrency %d)", h, o.conc)
				for i := range b.Receipts {
					x, y := b.Receipts[i], a.Receipts[i]
					s := fmt.Sprint(x.Status, x.StepUsed, x.StepPrice, x.Cumulative, x.Score, x.To, x.Events)
					z := fmt.Sprint(y.Status, y.StepUsed, y.StepPrice, y.Cumulative, y.Score, y.To, y.Events)
					r.Need(s == z, "block %d, transaction %d: results differ:\n%s and, in parallel,\n%s", h, i, s, z)
					if i == len(txs)-1 {
						r.Label("last: %v", y.Status)
					}
				}
				r.Need(bytes.Equal(a.Result, b.Result), "block %d: results differ: %x and, in parallel, %x", h, b.Result, a.Result)
				if n == 1 {
					r.NoErr(o.n.Commit(a), "block %d can't be stored", h)
				}
			}
		}
		if changes > 3 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
