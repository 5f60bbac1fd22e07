package p29

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

// node re-executes the blocks of another one.
type node struct {
	n    *sim.Node
	db   db.Database
	conc int
	dir  string
}

func (x *node) start() {
	x.n = sim.NewNode(sim.Options{Dir: x.dir, DB: x.db, Concurrency: x.conc})
}

// Every node gets the same result from the same blocks: whether transactions
// come from memory or from bytes, whether it runs them one by one or at the
// same time, whether its state is in memory or read again after a restart.
func TestReplay(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "coins or validators change and the other node restarts or runs in parallel", Quick: 1400, Thorough: 20000}, func(r *kit.Rec) {
		g := hworld.G{T: r.T}
		c := g.Config()
		for i := 0; i < 12; i++ {
			c.Accounts[hworld.Owner(i)] = hworld.Coins(1000000)
		}
		vals := 0
		if g.Chance(1, 2) {
			c.Rev = hworld.Pick(g, 4, 5, 6, 7)
			c.TermPeriod = int64(g.Int(2, 6))
			vals = g.Int(1, 6)
			for i := 0; i < vals; i++ {
				n, _ := hmodel.NodeOf(hmodel.KeyOf(i))
				c.Validators = append(c.Validators, n)
			}
		}
		w := hworld.New(r, c)
		defer w.N.Close()
		no := func(string) bool { return false }
		w.Look = hworld.Look{Status: func(hmodel.Op) bool { return false }, Events: no}

		o := &node{db: db.NewMapDB(), conc: hworld.Pick(g, 1, 2, 4), dir: r.TempDir()}
		o.start()
		defer func() { o.n.Close() }()
		gb, err := o.n.Genesis(hworld.Genesis(c))
		r.NoErr(err, "the genesis block fails on another node")
		r.Need(bytes.Equal(gb.Result, w.N.Last().Result()), "the genesis block has another result on another node")
		restarts, changes := 0, 0
		w.Before = func(txs []module.Transaction, h int64, csi module.ConsensusInfo) {
			if !w.M.BaseNeeded(h) || g.Chance(1, 2) {
				return
			}
			bad, err := o.n.Base(h, hworld.TS(h)+1, csi)
			r.NoErr(err, "block %d: no base transaction", h)
			at := g.Int(1, len(txs))
			l := append(append(append([]module.Transaction{}, txs[:at]...), bad), txs[at:]...)
			r.Step("the other node gets block %d with a second base transaction", h)
			for _, x := range []*sim.Node{o.n, w.N} {
				_, err = x.Try(l, h, hworld.TS(h), csi, g.Chance(1, 2))
				r.Need(err != nil, "block %d with two base transactions is accepted", h)
			}
			r.Label("refused blocks")
		}
		w.Hook = func(txs []module.Transaction, h int64, csi module.ConsensusInfo, b *sim.Block) {
			if g.Chance(1, 4) {
				last := o.n.Last()
				res, vh := last.Result(), last.NextValidators().Hash()
				o.n.Close()
				o.conc = hworld.Pick(g, 1, 2, 4)
				o.start()
				r.NoErr(o.n.Resume(res, vh), "block %d: the other node can not resume", h)
				r.Step("the other node restarts with concurrency %d", o.conc)
				restarts++
			}
			tx2 := txs
			if g.Chance(4, 5) {
				var err error
				tx2, err = o.n.Reparse(txs)
				r.NoErr(err, "block %d: its transactions can not be read", h)
			}
			a, err := o.n.Run(tx2, h, hworld.TS(h), csi, g.Chance(1, 3))
			r.NoErr(err, "block %d fails on another node (concurrency %d)", h, o.conc)
			for i := range b.Receipts {
				x, y := b.Receipts[i], a.Receipts[i]
				r.Need(fmt.Sprint(x.Status, x.StepUsed, x.StepPrice, x.Cumulative, x.Score, x.To, x.Events) ==
					fmt.Sprint(y.Status, y.StepUsed, y.StepPrice, y.Cumulative, y.Score, y.To, y.Events),
					"block %d, transaction %d: results differ:\n%v %v %v\n%v %v %v", h, i, x.Status, x.StepUsed, x.Events, y.Status, y.StepUsed, y.Events)
			}
			r.Need(fmt.Sprint(a.Validators) == fmt.Sprint(b.Validators), "block %d: next validators differ: %v and %v", h, b.Validators, a.Validators)
			r.Need(bytes.Equal(a.Tr.LogsBloom().Bytes(), b.Tr.LogsBloom().Bytes()), "block %d: logs blooms differ", h)
			r.Need(bytes.Equal(a.Result, b.Result), "block %d: results differ: %x and %x", h, b.Result, a.Result)
			if len(txs) > 1 {
				changes++
			}
		}
		for n := g.Int(4, 25); n > 0; n-- {
			l := []hmodel.Op{}
			if w.H == 1 {
				l = g.Setup(1)
				l = append(l, validators(g, vals)...)
			}
			for i := g.Int(0, 5); i > 0; i-- {
				switch k := g.Int(0, 19); {
				case k < 6:
					l = append(l, g.Transfer(w.M))
				case k < 10:
					l = append(l, g.PlanetOp(w.M, w.H))
				case k < 12:
					l = append(l, g.Claim(w.M, w.H))
				case k < 17 && vals > 0 && w.H > 1:
					l = append(l, g.ValidatorOp(w.M, 0))
				case k < 19 && w.M.IssueStart == 0:
					l = append(l, g.Start(w.H))
				default:
					l = append(l, g.Revision(w.M))
				}
			}
			yes := []bool{}
			for range w.M.Set {
				yes = append(yes, g.Chance(2, 3))
			}
			w.Block(hworld.KeepMain(w, l), yes, g.Chance(1, 2))
			if vals > 0 && len(w.M.Set) == 0 {
				break
			}
		}
		w.Labels()
		if changes > 1 && (restarts > 0 || o.conc > 1) {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

func validators(g hworld.G, n int) []hmodel.Op {
	if n == 0 {
		return nil
	}
	return hworld.Validators(g, n)
}
