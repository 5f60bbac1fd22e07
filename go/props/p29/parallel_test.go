package p29

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

// slowDB takes a while to answer, now and then, so that what runs at the same
// time takes turns at many places.
type slowDB struct {
	db.Database
	n    atomic.Uint64
	seed uint64
	on   atomic.Bool
}

func (s *slowDB) GetBucket(id db.BucketID) (db.Bucket, error) {
	b, err := s.Database.GetBucket(id)
	if err != nil {
		return nil, err
	}
	return &slowBucket{b, s}, nil
}

type slowBucket struct {
	db.Bucket
	s *slowDB
}

func (b *slowBucket) Get(k []byte) ([]byte, error) {
	if b.s.on.Load() {
		z := b.s.seed + b.s.n.Add(1)*0x9e3779b97f4a7c15
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z ^= z >> 29
		switch z % 8 {
		case 0:
			time.Sleep(time.Duration(z>>8%60) * time.Microsecond)
		case 1, 2, 3:
			for i := z >> 8 % 5; i > 0; i-- {
				runtime.Gosched()
			}
		}
	}
	return b.Bucket.Get(k)
}

// Transactions that run at the same time have the same results as one by one.
func TestParallel(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "transactions of common accounts run at the same time, on a state read from the database", Quick: 1400, Thorough: 40000, Sure: true}, func(r *kit.Rec) {
		g := hworld.G{T: r.T}
		c := g.Config()
		if g.Chance(1, 2) {
			c.StepPrice = 0
		}
		m := hworld.Pick(g, 2, 3, 5, 10)
		users := []string{}
		for i := 0; i < m; i++ {
			users = append(users, hworld.Owner(i))
			c.Accounts[users[i]] = hworld.Pick(g, big.NewInt(0), big.NewInt(5), hworld.Coins(1), hworld.Coins(1000000))
			if c.StepPrice != 0 {
				c.Accounts[users[i]] = hworld.Coins(1000000000)
			}
		}
		w := hworld.New(r, c)
		defer w.N.Close()
		no := func(string) bool { return false }
		w.Look = hworld.Look{Status: func(hmodel.Op) bool { return false }, Events: no}
		sd := &slowDB{Database: db.NewMapDB(), seed: uint64(g.Int(0, 1<<30))}
		o := &node{db: sd, conc: hworld.Pick(g, 2, 3, 4, 8), dir: r.TempDir()}
		o.start()
		defer func() { o.n.Close() }()
		_, err := o.n.Genesis(hworld.Genesis(c))
		r.NoErr(err, "the genesis block fails on another node")
		most := 0
		w.Hook = func(txs []module.Transaction, h int64, csi module.ConsensusInfo, b *sim.Block) {
			check := func(a *sim.Block) {
				for i := range b.Receipts {
					x, y := b.Receipts[i], a.Receipts[i]
					s := fmt.Sprint(x.Status, x.StepUsed, x.StepPrice, x.Cumulative, x.Score, x.To, x.Events)
					z := fmt.Sprint(y.Status, y.StepUsed, y.StepPrice, y.Cumulative, y.Score, y.To, y.Events)
					r.Need(s == z, "block %d, transaction %d: results differ:\n%s and, in parallel,\n%s", h, i, s, z)
				}
				r.Need(bytes.Equal(a.Result, b.Result), "block %d: results differ: %x and, in parallel, %x", h, b.Result, a.Result)
			}
			for n := g.Int(1, 4); n > 0; n-- {
				last := o.n.Last()
				o.n.Close()
				o.start()
				r.NoErr(o.n.Resume(last.Result(), last.NextValidators().Hash()), "block %d: the other node can not resume", h)
				l, err := o.n.Reparse(txs)
				r.NoErr(err, "block %d: its transactions can not be read", h)
				sd.on.Store(true)
				a, err := o.n.Try(l, h, hworld.TS(h), csi, true)
				sd.on.Store(false)
				r.NoErr(err, "block %d fails in parallel (concurrency %d)", h, o.conc)
				check(a)
				if n == 1 {
					r.NoErr(o.n.Commit(a), "block %d can't be stored", h)
				}
			}
			most = max(most, len(txs))
		}
		r.Step("%d users, concurrency %d", m, o.conc)
		for n := g.Int(1, 6); n > 0; n-- {
			l := []hmodel.Op{}
			for i := hworld.Pick(g, 2, 5, 10, 30) + g.Int(0, 3); i > 0; i-- {
				from, to := users[g.Int(0, m-1)], users[g.Int(0, m-1)]
				v := g.Amount()
				k := g.Int(0, 9)
				if c.StepPrice != 0 {
					k = max(k, 6)
				}
				switch k {
				case 0, 1, 2:
					v = w.M.Balance(from)
				case 3, 4:
					v = new(big.Int).Add(w.M.Balance(from), big.NewInt(int64(g.Int(-3, 10))))
					if v.Sign() < 0 {
						v = new(big.Int)
					}
				case 5:
					v = new(big.Int).Add(w.M.Balance(from), w.M.Balance(users[g.Int(0, m-1)]))
				case 6:
					v = big.NewInt(1)
				}
				op := hmodel.Op{From: from, To: to, Value: v}
				switch g.Int(0, 39) {
				case 0:
					op = g.PlanetOp(w.M, w.H)
				case 1:
					op.To = hworld.Pick(g, hmodel.Treasury, hmodel.Public, hmodel.System)
				}
				l = append(l, op)
			}
			w.Block(l, nil, true)
		}
		w.Labels()
		if most > 3 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
