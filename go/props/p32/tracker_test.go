package p32

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/common/txlocator"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

const (
	alice = "hx00000000000000000000000000000000000000a1"
	bob   = "hx00000000000000000000000000000000000000b2"
)

// rec is a list of transactions on a branch.
type rec struct {
	t         module.LocatorTracker
	up        *rec
	height    int64
	ts, th    int64
	txs       []module.Transaction
	committed bool
}

// has looks for a transaction in a list and the ones before it.
func (x *rec) has(id string) bool {
	for ; x != nil; x = x.up {
		for _, t := range x.txs {
			if string(t.ID()) == id {
				return true
			}
		}
	}
	return false
}

// The record of executed transactions tells exactly which ones a branch has,
// whatever was committed, forgotten by the cache, or written before a restart.
func TestTracker(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "a replay is asked about after its list left the cache, after a restart or on an uncommitted branch", Quick: 30000, Thorough: 600000}, func(r *kit.Rec) {
		sim.Silence()
		g := hworld.G{T: r.T}
		base := db.NewMapDB()
		var m module.LocatorManager
		start := func() {
			var err error
			m, err = txlocator.NewManager(base, log.GlobalLogger())
			r.NoErr(err, "it does not start")
			m.Start()
		}
		start()
		defer func() { m.Term() }()
		nonce := int64(0)
		var all []module.Transaction
		var tip *rec // last committed
		var open []*rec
		// a minute, too, as some time after the start lookups are cut short
		u := hworld.Pick(g, int64(1), 60_000_000, 60_000_000)
		th := int64(g.Int(1, 12)) * u
		deep := false
		for i := g.Int(3, 25); i > 0; i-- {
			switch k := g.Int(0, 9); {
			case k < 6:
				up := tip
				if len(open) > 0 && g.Chance(1, 3) {
					up = open[g.Int(0, len(open)-1)]
				}
				x := &rec{up: up, th: th, height: 1, ts: 1000 * u}
				if up != nil {
					x.height = up.height + 1
					x.ts = up.ts + int64(g.Int(0, 8))*u
					if g.Chance(1, 8) {
						x.ts += int64(g.Int(0, 60)) * u
					}
				}
				if g.Chance(1, 5) {
					x.th = int64(g.Int(1, 30)) * u
					th = x.th
				}
				if up != nil && up.t != nil && (up.committed && g.Chance(3, 4) || !up.committed) {
					x.t = up.t.New(x.height, x.ts, x.th)
				} else {
					x.t = m.NewTracker(module.TransactionGroupNormal, x.height, x.ts, x.th)
				}
				dup := false
				for j := g.Int(0, 3); j > 0; j-- {
					var tx module.Transaction
					if len(all) > 0 && g.Chance(1, 4) {
						tx = all[g.Int(0, len(all)-1)]
						if ts := transaction.Unwrap(tx).(transaction.Transaction).Timestamp(); ts <= x.ts-x.th || ts > x.ts+x.th {
							continue
						}
					} else {
						nonce++
						d := hworld.Pick(g, -x.th+1, 0, x.th, x.th-1, int64(g.Int(int(-x.th/u+1), int(x.th/u)))*u)
						tx = sim.NewTx(alice, bob, new(big.Int), "", nil, x.ts+d, nonce)
						all = append(all, tx)
					}
					if x.has(string(tx.ID())) {
						dup = true
					}
					x.txs = append(x.txs, tx)
				}
				r.Step("list %d at %d (threshold %d) on %s with %s; duplicate: %v", x.height, x.ts, x.th, name(up), names(x.txs), dup)
				n, err := x.t.Add(list(x.txs), false)
				r.Need((err != nil) == dup, "a list with duplicates: %v, but adding it returns %v", dup, err)
				if dup {
					r.Label("duplicates refused")
					break
				}
				r.Need(n == len(x.txs), "%d of %d added", n, len(x.txs))
				open = append(open, x)
			case k < 8 && len(open) > 0:
				x := open[g.Int(0, len(open)-1)]
				r.Step("commit list %d at %d", x.height, x.ts)
				r.NoErr(x.t.Commit(), "commit")
				for y := x; y != nil && !y.committed; y = y.up {
					y.committed = true
				}
				tip = x
				var rest []*rec
				for _, y := range open {
					on := false
					for z := y; z != nil; z = z.up {
						on = on || z == x
					}
					if on && y != x {
						rest = append(rest, y)
					}
				}
				open = rest
			case k == 8:
				r.Step("restart")
				m.Term()
				start()
				open = nil
				for y := tip; y != nil; y = y.up {
					y.t = nil
				}
				deep = tip != nil
			}
			// the recorded ones are exactly the ones of each branch
			for _, tx := range all {
				id := tx.ID()
				ts := transaction.Unwrap(tx).(transaction.Transaction).Timestamp()
				got, err := m.Has(module.TransactionGroupNormal, id, ts)
				r.NoErr(err, "manager")
				want := tip.has(string(id))
				r.Need(got == want, "transaction %d is in the chain: %v, the manager says %v", ts, want, got)
				loc, err := m.GetLocator(id)
				r.NoErr(err, "locator")
				r.Need((loc != nil) == want, "transaction %d is in the chain: %v, but its place is %v", ts, want, loc)
				if loc != nil {
					ok := false
					for y := tip; y != nil; y = y.up {
						if y.height == loc.BlockHeight && loc.IndexInGroup < len(y.txs) && string(y.txs[loc.IndexInGroup].ID()) == string(id) {
							ok = true
						}
					}
					r.Need(ok && loc.TransactionGroup == module.TransactionGroupNormal, "the place of transaction %d is said to be %+v", ts, loc)
				}
				for _, x := range open {
					got, err := x.t.Has(id, ts)
					r.NoErr(err, "tracker")
					r.Need(got == x.has(string(id)), "transaction at %d is in the branch of list %d: %v, it says %v", ts, x.height, x.has(string(id)), got)
					deep = deep || got && x.up != tip
				}
			}
		}
		if deep {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

func name(x *rec) string {
	if x == nil {
		return "the start"
	}
	return fmt.Sprintf("list %d at %d", x.height, x.ts)
}

func names(l []module.Transaction) string {
	s := ""
	for _, tx := range l {
		t := transaction.Unwrap(tx).(transaction.Transaction)
		s += fmt.Sprintf(" %x(%d)", t.ID()[:3], t.Timestamp())
	}
	return s
}

func list(l []module.Transaction) module.TransactionList {
	return transaction.NewTransactionListFromSlice(db.NewMapDB(), l)
}
