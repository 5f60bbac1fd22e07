package p32

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

// blk is a block of the model.
type blk struct {
	up  *blk
	b   *sim.Block
	txs []module.Transaction
	th  int64 // for the next block
}

func (x *blk) has(id []byte) bool {
	for ; x != nil; x = x.up {
		for _, t := range x.txs {
			if bytes.Equal(t.ID(), id) {
				return true
			}
		}
	}
	return false
}

func tsOf(tx module.Transaction) int64 {
	return transaction.Unwrap(tx).(transaction.Transaction).Timestamp()
}

// A block is accepted only when its transactions are in time and were not
// executed before, on nodes which executed, only stored or re-executed the
// chain, on any branch, and whatever happened to the threshold.
func TestReplay(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "a block with an old transaction or one out of time is judged after a restart, a change of the threshold or on an uncommitted block", Quick: 8000, Thorough: 60000}, func(r *kit.Rec) {
		g := hworld.G{T: r.T}
		c := g.Config()
		c.Rev = hworld.Pick(g, 0, 4, 7)
		dir := r.TempDir()
		base := db.NewMapDB()
		n := sim.NewNode(sim.Options{Dir: dir, DB: base, Concurrency: hworld.Pick(g, 1, 4)})
		defer func() { n.Close() }()
		gb, err := n.Genesis(hworld.Genesis(c))
		r.NoErr(err, "genesis")
		csi := common.NewConsensusInfo(nil, nil, nil)
		root := &blk{b: gb, th: 30_000_000}
		tip, open := root, []*blk{}
		var all []module.Transaction
		var nonce int64
		special := false
		sec := hworld.Pick(g, int64(1000), 1_000_000, 60_000_000)
		for i := g.Int(3, 16); i > 0; i-- {
			switch k := g.Int(0, 9); {
			case k < 6: // judge a block
				up := tip
				if len(open) > 0 && g.Chance(1, 3) {
					up = open[g.Int(0, len(open)-1)]
				}
				h := up.b.Height + 1
				ts := up.b.TS + int64(g.Int(0, 10))*sec
				if up == root {
					ts += 1_000_000_000
				}
				x := &blk{up: up, th: up.th}
				why := ""
				var fresh []module.Transaction
				for j := g.Int(0, 4); j > 0; j-- {
					nonce++
					var tx module.Transaction
					th, dup, gov := x.th, false, false
					switch k := g.Int(0, 9); {
					case k < 3 && len(all) > 0:
						tx, dup = all[g.Int(0, len(all)-1)], true
						if len(fresh) > 0 && g.Chance(1, 5) {
							tx = fresh[g.Int(0, len(fresh)-1)]
						}
					case k == 3 && len(x.txs) == 0:
						th, gov = int64(g.Int(1, 20))*sec, true
						tx = sim.NewTx(hmodel.Governance, "cx0000000000000000000000000000000000000000", new(big.Int), "setTimestampThreshold",
							map[string]any{"threshold": sim.Num(th / 1000)}, ts, nonce)
					case k == 4:
						tx = sim.NewTx(hworld.Users[0], hworld.Users[1], new(big.Int), "", nil, ts+hworld.Pick(g, -up.th, up.th+1, -up.th-1, up.th*2), nonce)
					default:
						tx = sim.NewTx(hworld.Users[0], hworld.Users[1], new(big.Int), "", nil, ts+hworld.Pick(g, 0, -up.th+1, up.th, up.th-1, int64(g.Int(int(-up.th)+1, int(up.th)))), nonce)
					}
					if d := tsOf(tx) - ts; d <= -up.th || d > up.th {
						if why != "" || dup && !g.Chance(1, 4) {
							continue
						}
						why = fmt.Sprintf("out of time (%+d)", d)
					}
					if x.has(tx.ID()) {
						why = "executed before"
					}
					x.txs, x.th = append(x.txs, tx), th
					if !gov {
						fresh = append(fresh, tx)
					}
				}
				all = append(all, fresh...)
				in := ""
				for _, tx := range x.txs {
					in += fmt.Sprintf(" %x(%+d)", tx.ID()[:3], tsOf(tx)-ts)
				}
				r.Step("block %d at %d on %s (threshold %d) with%s; next threshold %d; %s", h, ts, hashOf(up), up.th, in, x.th, why)
				b, err := n.TryOn(up.b.Tr, x.txs, h, ts, csi, false)
				if why != "" {
					r.Need(err != nil, "a block with a transaction %s is accepted", why)
					r.Label("refused: %.10s", why)
					special = special || up != tip || up.th != root.th
					break
				}
				r.NoErr(err, "a proper block is refused")
				x.b = b
				open = append(open, x)
				for i, rc := range b.Receipts {
					r.Need(rc.Status == module.StatusSuccess, "transaction %d fails with %v", i, rc.Status)
				}
			case k < 8 && len(open) > 0:
				x := open[g.Int(0, len(open)-1)]
				if x.up != tip && g.Chance(1, 2) {
					x = x.up
				}
				var path []*blk
				for y := x; y != tip; y = y.up {
					path = append([]*blk{y}, path...)
				}
				for _, y := range path {
					r.Step("commit %s", hashOf(y))
					r.NoErr(n.Commit(y.b), "commit")
				}
				tip = x
				var rest []*blk
				for _, y := range open {
					for z := y.up; z != nil; z = z.up {
						if z == x {
							rest = append(rest, y)
							break
						}
					}
				}
				open = rest
			case k == 8 && tip != root:
				crash := g.Chance(1, 2)
				r.Step("restart (crash: %v)", crash)
				n.Close()
				if crash {
					// the places of the last block's transactions may be not yet written
					bk, err := base.GetBucket(db.TransactionLocatorByHash)
					r.NoErr(err, "bucket")
					for _, tx := range tip.txs {
						r.NoErr(bk.Delete(tx.ID()), "delete")
					}
				}
				n = sim.NewNode(sim.Options{Dir: dir, DB: base, Concurrency: hworld.Pick(g, 1, 4)})
				up := tip.up.b
				b, err := n.Restart(up.Result, up.Tr.NextValidators().Hash(), tip.b, csi)
				r.NoErr(err, "restart")
				r.Need(bytes.Equal(b.Result, tip.b.Result), "the last block has another result after a restart")
				tip.b = b
				open = nil
				special = true
			default:
				// where the transactions were executed
				for y := tip; y != nil && y != root; y = y.up {
					for i, tx := range y.txs {
						loc, err := n.Locator(tx.ID())
						r.NoErr(err, "locator")
						r.Need(loc != nil && loc.BlockHeight == y.b.Height && loc.IndexInGroup == i, "transaction %d of block %d is said to be at %+v", i, y.b.Height, loc)
					}
				}
				for _, tx := range all {
					if !tip.has(tx.ID()) {
						loc, err := n.Locator(tx.ID())
						r.NoErr(err, "locator")
						r.Need(loc == nil, "a transaction that was not executed is said to be at %+v", loc)
					}
				}
			}
		}
		if special {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

func hashOf(x *blk) string { return fmt.Sprintf("%d/%x", x.b.Height, x.b.Result[:3]) }
