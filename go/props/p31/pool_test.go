package p31

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

const (
	system = "cx0000000000000000000000000000000000000000"
	nobody = "hx00000000000000000000000000000000000000ee"
	window = 30_000_000
)

// sent is a transaction somebody sent.
type sent struct {
	n        int
	js, bs   []byte
	tx       transaction.Transaction
	from, to string
	need     *big.Int
	ts       int64
	in       [2]bool // taken by the node
	direct   [2]bool // from a user
	gone     [2]bool // may be dropped
	done     bool
	wait     [2]<-chan interface{}
}

func (p *sent) String() string {
	return fmt.Sprintf("t%d(%s->%s needs %v, at %d, %d bytes)", p.n, p.from[:6], p.to[:6], p.need, p.ts, len(p.bs))
}

// Whatever is in the pools of nodes, their proposals execute on other nodes
// with the same result, hold no transaction twice and keep the limits, leave
// out no transaction which could be executed, and who waits gets an answer.
func TestPool(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "a block is proposed while the pool has transactions that can and ones that can't be executed", Quick: 5000, Thorough: 120000, Hang: 100 * time.Second}, func(r *kit.Rec) {
		g := txs.G{T: r.T}
		price := txs.Pick(g, int64(0), 1, 1)
		c := hmodel.Config{Rev: txs.Pick(g, 0, 2, 4, 7), StepPrice: price, TermPeriod: 3, Cycle: 360, Limit: 100, Budget: hworld.Coins(10),
			USDT: hworld.Coins(1), Issue: big.NewInt(10), Accounts: map[string]*big.Int{hmodel.Governance: hworld.Coins(1)}}
		for i := 0; i < 4; i++ {
			c.Accounts[txs.Address(i)] = big.NewInt(int64(g.Int(0, 12)) * 100000)
		}
		opt := sim.Options{Pool: txs.Pick(g, 3, 20, 100), BlockTxs: txs.Pick(g, 1, 2, 5, 1000), BlockBytes: txs.Pick(g, 700, 1500, 5000, 1<<20)}
		var ns [2]*sim.Node
		for i := range ns {
			o := opt
			o.Dir = r.TempDir()
			o.Concurrency = txs.Pick(g, 1, 4)
			ns[i] = sim.NewNode(o)
			defer ns[i].Close()
			ns[i].Start()
			_, err := ns[i].Genesis(hworld.Genesis(c))
			r.NoErr(err, "the genesis block fails")
		}
		r.Step("pools of %d, blocks of %d bytes and %d transactions, price %d", opt.Pool, opt.BlockBytes, opt.BlockTxs, price)
		var all []*sent
		h, bts := int64(1), int64(1_000_000_000)
		last := int64(0) // time of the last block
		csi := func() module.ConsensusInfo { return sim.CSI(nobody, ns[0].Last().NextValidators(), nil) }
		if g.Chance(1, 2) {
			r.Step("block 1 starts the issue")
			tx := sim.NewTx(hmodel.Governance, system, new(big.Int), "startRewardIssue", map[string]any{"height": "0x3"}, bts, 1)
			for _, n := range ns {
				b, err := n.Run([]module.Transaction{tx}, h, bts, csi(), false)
				r.NoErr(err, "block 1 fails")
				r.Need(b.Receipts[0].Status == module.StatusSuccess, "issue is not started: %v", b.Receipts[0].Status)
			}
			h, last = 2, bts
		}
		mixed := false
		for i := g.Int(3, 14); i > 0; i-- {
			if len(all) == 0 || g.Chance(3, 5) {
				for j := g.Int(1, 4); j > 0; j-- {
					k := g.Int(0, 1)
					var p *sent
					if len(all) > 0 && g.Chance(1, 5) {
						p = all[g.Int(0, len(all)-1)]
					} else {
						p = makeTx(r, g, len(all), bts+2_000_000, price)
						all = append(all, p)
					}
					send(r, g, ns, k, p, all, last, opt)
				}
				continue
			}
			// a block
			bts += int64(g.Int(0, 6)) * txs.Pick(g, int64(1000), 1_000_000, 6_000_000)
			k := g.Int(0, 1)
			a, b := ns[k], ns[1-k]
			blk, err := a.Propose(h, bts, csi())
			r.NoErr(err, "no block can be proposed")
			var mine []*sent
			size := 0
			taken := map[string]bool{}
			to := map[string]bool{}
			for at, tx := range blk.Txs {
				if at == 0 && tx.From() == nil || tx.From().String() == system {
					continue
				}
				var p *sent
				for _, q := range all {
					if bytes.Equal(q.tx.ID(), tx.ID()) {
						p = q
					}
				}
				r.Need(p != nil, "the block has a transaction nobody sent: %x", tx.Bytes())
				r.Need(p.in[k], "the block has %v, which was refused", p)
				r.Need(!p.done, "%v is executed again", p)
				r.Need(!taken[string(tx.ID())], "the block has %v twice", p)
				taken[string(tx.ID())] = true
				to[p.to] = true
				mine = append(mine, p)
				size += len(tx.Bytes())
			}
			r.Step("node %d proposes block %d at %d with %v", k, h, bts, mine)
			r.Need(len(mine) <= opt.BlockTxs && size <= opt.BlockBytes, "%d transactions with %d bytes in a block", len(mine), size)
			list, err := b.Reparse(blk.Txs)
			r.NoErr(err, "another node can't read the block")
			other, err := b.Try(list, h, bts, csi(), false)
			r.NoErr(err, "another node refuses the proposed block %d", h)
			r.Need(bytes.Equal(other.Result, blk.Result), "another node has another result")
			// what was left out
			full := len(mine) >= opt.BlockTxs
			could := map[*sent]bool{}
			for _, p := range all {
				if !p.in[k] || p.done || taken[string(p.tx.ID())] || p.gone[k] {
					continue
				}
				if p.ts <= bts-window {
					p.gone[k] = true
					continue
				}
				if p.ts > bts+window {
					continue
				}
				tx, err := b.SM.TransactionFromBytes(p.bs, module.BlockVersion2)
				r.NoErr(err, "a node can't read %v", p)
				_, err = b.Try(append(append([]module.Transaction{}, list...), tx), h, bts, csi(), false)
				if err == nil && len(p.bs) > opt.BlockBytes {
					p.gone[k] = true
					continue
				}
				if err == nil && size+len(p.bs) > opt.BlockBytes {
					full = true
				}
				if err == nil && !to[p.from] {
					could[p] = true
					continue
				}
				if !p.direct[k] || err == nil {
					p.gone[k] = true
				}
				mixed = true
			}
			for p := range could {
				r.Need(full, "the block leaves out %v, which can be executed", p)
				r.Need(len(mine) > 0, "the block is empty but %v can be executed", p)
			}
			if g.Chance(1, 6) {
				// another round: the block is not agreed on
				r.Step("not agreed on")
				continue
			}
			r.NoErr(a.Commit(blk), "commit")
			r.NoErr(b.Commit(other), "commit")
			last = bts
			h++
			for _, p := range mine {
				p.done = true
			}
			at := len(blk.Txs) - len(mine)
			for i := range ns {
				for j, p := range mine {
					if p.wait[i] != nil {
						x := answer(r, p, p.wait[i])
						rc, ok := x.(module.Receipt)
						r.Need(ok, "who waits for %v gets %v", p, x)
						r.Need(rc.Status() == blk.Receipts[at+j].Status, "who waits for %v gets status %v", p, rc.Status())
						p.wait[i] = nil
						r.Label("answered with the result")
					}
				}
				for _, p := range all {
					if p.ts <= bts-window && !p.done {
						if p.wait[i] != nil {
							x := answer(r, p, p.wait[i])
							_, ok := x.(error)
							r.Need(ok, "who waits for the expired %v gets %v", p, x)
							p.wait[i] = nil
							r.Label("answered with an error")
						}
						p.in[i] = false
					}
				}
			}
		}
		if mixed {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

func answer(r *kit.Rec, p *sent, c <-chan interface{}) interface{} {
	select {
	case x := <-c:
		return x
	case <-time.After(20 * time.Second):
		r.Fail("who waits for %v gets no answer", p)
	}
	return nil
}

func makeTx(r *kit.Rec, g txs.G, n int, bts, price int64) *sent {
	who := g.Int(0, 3)
	p := &sent{n: n, from: txs.Address(who), to: txs.Address(g.Int(0, 3))}
	p.ts = bts + txs.Pick(g, 0, 0, int64(-n), int64(g.Int(-20, 20))*1_000_000, int64(g.Int(-40, 40))*1_000_000)
	if p.ts < 0 {
		p.ts = 0
	}
	value := big.NewInt(int64(g.Int(0, 6)) * 50000)
	limit := txs.Pick(g, int64(hmodel.Steps), hmodel.Steps, 2*hmodel.Steps, hmodel.Steps-1)
	m := map[string]any{"version": "0x3", "from": p.from, "to": p.to, "value": sim.Hex(value), "stepLimit": sim.Num(limit),
		"timestamp": sim.Num(p.ts), "nid": "0x1", "nonce": sim.Num(int64(n))}
	switch k := g.Int(0, 19); {
	case k < 5:
		m["dataType"] = "message"
		m["data"] = strings.Repeat("x", g.Int(0, 300)*txs.Pick(g, 1, 1, 10))
	case k < 8:
		m["dataType"] = "call"
		p.to = system
		m["to"] = system
		data := map[string]any{"method": txs.Pick(g, "setUSDTPrice", "nothing", "claimPlanetReward", "transfer")}
		if g.Chance(1, 2) {
			data["params"] = txs.Pick[any](g, map[string]any{"ids": []any{"0x1"}}, map[string]any{"price": "0x1"}, map[string]any{})
		}
		m["data"] = data
	case k == 8:
		m["dataType"] = "deposit"
		m["data"] = map[string]any{"action": txs.Pick(g, "add", "withdraw", "")}
	case k == 9:
		m["nonce"] = "0x1" + strings.Repeat("0", 2*g.Int(300, 6000))
	case k == 10:
		p.to = txs.Pick(g, "cx00000000000000000000000000000000000000dd", nobody)
		m["to"] = p.to
	}
	p.need = new(big.Int).Add(value, big.NewInt(limit*price))
	txs.Signed(txs.Wallet(who), m)
	js := g.JSON(m, true)
	if m["dataType"] == "message" && g.Chance(1, 3) {
		js = bytes.Replace(js, []byte(`"data":`), []byte(`"data":`+strings.Repeat(" ", g.Int(0, 6000))), 1)
	}
	tx, err := transaction.NewTransactionFromJSON(js)
	r.NoErr(err, "a proper transaction is refused: %s", js)
	p.js, p.tx, p.bs = js, tx, tx.Bytes()
	if limit < hmodel.Steps {
		p.need = nil
	}
	return p
}

func send(r *kit.Rec, g txs.G, ns [2]*sim.Node, k int, p *sent, all []*sent, last int64, opt sim.Options) {
	n := ns[k]
	used := 0
	for _, q := range all {
		if q.in[k] && !q.done {
			used++
		}
	}
	again := p.in[k] || p.done || p.gone[k]
	if g.Chance(1, 2) {
		err := n.Receive(sim.PropagateTx, p.bs)
		r.Step("node %d gets %v from a peer: %v", k, p, err)
		if !again && used < opt.Pool && p.ts > last-window {
			r.NoErr(err, "a proper transaction of a peer is refused")
		}
		if err == nil {
			r.Need(!p.in[k] || p.gone[k], "%v is taken twice", p)
			r.Need(!p.done, "%v is taken after its execution", p)
			p.in[k], p.gone[k] = true, false
		}
		return
	}
	prev := n.Last().Result()
	enough := false
	if p.need != nil {
		enough = n.Balance(p.from).Cmp(p.need) >= 0
	}
	var err error
	var c <-chan interface{}
	if g.Chance(1, 2) {
		_, c, err = n.SM.SendTransactionAndWait(prev, 1, p.js)
	} else {
		_, err = n.SM.SendTransaction(prev, 1, p.js)
	}
	r.Step("node %d gets %v from a user: %v", k, p, err)
	if !again && used < opt.Pool && p.ts > last-window {
		if enough {
			r.NoErr(err, "a proper transaction of a user is refused")
		}
	}
	if err == nil && !enough {
		r.Fail("%v is taken though its sender can't pay", p)
	}
	if err == nil {
		r.Need(!p.done, "%v is taken after its execution", p)
		if !p.in[k] || p.gone[k] && c == nil {
			p.direct[k] = true
			p.gone[k] = false
		}
		p.in[k] = true
		if c != nil {
			p.wait[k] = c
		}
	}
}
