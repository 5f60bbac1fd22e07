package p35

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/txs"
)

type tree struct {
	*lab
	fl    []*flight
	picks int
}

// kids of a node's last block, in order of their making.
func (n *node) heirs() []*spot {
	o := append([]*spot{}, n.last.kids...)
	sort.Slice(o, func(i, j int) bool { return bytes.Compare(o[i].b.id, o[j].b.id) < 0 })
	return o
}

// settleAll waits for what is under way.
func (l *tree) land() {
	r := l.r
	for _, f := range l.fl {
		n := f.n
		b, err := f.wait()
		alive := n.live[string(f.up.id)] != nil
		switch {
		case err == nil:
			r.Step("%s: %v", f.what, b)
		case f.ok == 1 && alive:
			r.Fail("%s fails: %+v", f.what, err)
		default:
			r.Step("%s fails", f.what)
		}
		if f.ok == -1 {
			r.Need(err != nil, "%s succeeds", f.what)
		}
	}
	l.fl = nil
}

// A node keeps to the blocks it decided on, whatever it works on besides.
func TestTree(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "some node had several blocks for a height", Quick: 1400, Thorough: 40000, Sure: true}, func(r *kit.Rec) {
		g := txs.G{T: r.T}
		vals := txs.Pick(g, 1, 2, 4, 4, 7)
		l := &tree{lab: build(r, g, g.Int(1, 3), vals)}
		defer l.c.Close()
		forks := 0
		begin := func(n *node) *flight {
			up := n.last.b
			if g.Chance(1, 8) {
				up = l.all[g.Int(0, len(l.all)-1)]
			}
			s := n.live[string(up.id)]
			if up.h > 0 && (up.up == nil || !up.up.known || len(voters(up)) == 0) {
				return nil
			}
			ok := -1
			if len(l.fl) > 0 {
				ok = 0
			}
			if s != nil {
				ok = 0
				if s == n.last {
					ok = 1
				}
			}
			var f *flight
			kids := []*blk{}
			for _, b := range l.all {
				if b.up == up {
					kids = append(kids, b)
				}
			}
			if len(kids) > 0 && g.Chance(3, 5) {
				b := kids[g.Int(0, len(kids)-1)]
				if g.Chance(1, 3) {
					ts := b.ts
					more := [][]byte(nil)
					if b.h > 1 {
						more = l.pending(ts)
					}
					c := l.craft(b, more)
					f = n.take(c, fmt.Sprintf("a version of %v", b))
				} else {
					f = n.take(b, b.name)
				}
			} else {
				f = n.propose(up, l.proof(l.ballots(up)).Bytes())
			}
			f.ok = ok
			r.Step("%s begins", f.what)
			l.fl = append(l.fl, f)
			return f
		}
		var dead []*flight
		cancel := func(f *flight) bool {
			r.Step("cancel %s", f.what)
			if f.stop.Cancel() {
				dead = append(dead, f)
				return true
			}
			return false
		}
		restart := func(n *node, cut bool) {
			if !cut {
				l.c.Stop(n.slot)
			}
			l.c.Reap()
			r.NoErr(l.c.Start(n.slot, 0), "node %d doesn't start again", n.slot)
			n.reset()
			b, err := n.bm().GetLastBlock()
			r.NoErr(err, "no last block")
			if !bytes.Equal(b.ID(), n.last.b.id) {
				r.Fail("after its restart node %d's last block is %d, not %v", n.slot, b.Height(), n.last.b)
			}
			n.last = &spot{b: n.last.b}
			n.live[string(n.last.b.id)] = n.last
		}
		// the first blocks
		first := true
		for step := g.Int(10, 50); step > 0; step-- {
			n := l.nodes[g.Int(0, len(l.nodes)-1)]
			if first {
				_, x, _ := l.honest(n, l.gen, func(int64) [][]byte { return l.settle(vals) })
				for _, o := range l.nodes {
					if o != n {
						_, err := o.take(x, "the first block").wait()
						r.NoErr(err, "node %d refuses the first block", o.slot)
					}
					o.finalize(o.live[string(x.id)])
				}
				first = false
				continue
			}
			for i := txs.Pick(g, 0, 1, 1, 2, 3); i > 0; i-- {
				begin(n)
			}
			if g.Chance(1, 2) {
				l.land()
			}
			if len(n.heirs()) > 1 {
				forks++
			}
			switch k := g.Int(0, 19); {
			case k < 4: // finalize
				if h := n.heirs(); len(h) > 0 {
					s := h[g.Int(0, len(h)-1)]
					var c *held
					for i := range n.held {
						if n.held[i].s == s {
							c = &n.held[i]
						}
					}
					if c == nil {
						break
					}
					// as the consensus does
					for i := 0; i < len(l.fl); i++ {
						if f := l.fl[i]; f.n == n && f.err == nil && g.Chance(2, 3) && cancel(f) {
							l.fl = append(l.fl[:i:i], l.fl[i+1:]...)
							i--
						}
					}
					l.land()
					r.Step("node %d finalizes %v", n.slot, s.b)
					r.NoErr(n.bm().Finalize(c.c), "node %d doesn't finalize %v", n.slot, s.b)
					n.done(s)
				}
			case k < 5: // finalize what it must not
				var c []held
				for _, h := range n.held {
					if s := n.live[string(h.s.b.id)]; s == nil || s.up != n.last {
						c = append(c, h)
					}
				}
				if len(c) > 0 {
					h := c[g.Int(0, len(c)-1)]
					r.Step("node %d is told to finalize %v", n.slot, h.s.b)
					r.Need(n.bm().Finalize(h.c) != nil, "node %d finalizes %v after %v", n.slot, h.s.b, n.last.b)
				}
			case k < 9: // dispose
				if len(n.held) > 0 {
					i := g.Int(0, len(n.held)-1)
					h := n.held[i]
					for _, f := range l.fl {
						if f.up == h.s.b {
							l.land()
							break
						}
					}
					n.held = append(n.held[:i:i], n.held[i+1:]...)
					r.Step("node %d disposes %v", n.slot, h.s.b)
					h.c.Dispose()
					l.land()
					n.drop(h.s)
				}
			case k < 10: // duplicate
				if len(n.held) > 0 {
					h := n.held[g.Int(0, len(n.held)-1)]
					r.Step("node %d duplicates %v", n.slot, h.s.b)
					n.held = append(n.held, held{h.s, h.c.Dup()})
					h.s.held++
				}
			case k < 12: // cancel
				for i, f := range l.fl {
					if f.n == n && f.err == nil {
						if cancel(f) {
							l.fl = append(l.fl[:i:i], l.fl[i+1:]...)
						}
						break
					}
				}
			case k < 15:
				n.expect()
			case k < 16:
				if _, err := n.l.c.Life(n.slot).SM().SendTransaction(nil, 0, l.transfer(max(start, n.last.b.ts)+int64(g.Int(-1000000, 1000000)), nil)); err != nil {
					r.Step("node %d refuses a transaction", n.slot)
				} else {
					r.Step("node %d gets a transaction", n.slot)
				}
			case k < 17:
				var rest []*flight
				for _, f := range l.fl {
					if f.n != n {
						rest = append(rest, f)
					}
				}
				l.fl = rest
				r.Step("node %d is started again", n.slot)
				restart(n, false)
			case k < 18: // a crash while it finalizes
				l.land()
				if h := n.heirs(); len(h) > 0 {
					s := h[g.Int(0, len(h)-1)]
					for i := range n.held {
						if n.held[i].s == s {
							at := g.Int(0, 25)
							l.c.CrashIn(n.slot, at)
							_ = n.bm().Finalize(n.held[i].c)
							if l.c.Life(n.slot) != nil {
								l.c.Crash(n.slot)
							}
							r.Step("node %d crashes before effect %d of finalizing %v", n.slot, at, s.b)
							l.c.Reap()
							r.NoErr(l.c.Start(n.slot, 0), "node %d doesn't start again", n.slot)
							b, err := n.bm().GetLastBlock()
							r.NoErr(err, "no last block")
							n.reset()
							if bytes.Equal(b.ID(), s.b.id) {
								n.chain = append(n.chain, s.b)
								n.last = &spot{b: s.b}
								r.Label("finalized before the crash")
							} else {
								r.Need(bytes.Equal(b.ID(), n.last.b.id), "after its crash node %d's last block is %d, not %v", n.slot, b.Height(), n.last.b)
								n.last = &spot{b: n.last.b}
								r.Label("crashed before it was final")
							}
							n.live[string(n.last.b.id)] = n.last
							if n.last.b != s.b { // decided is decided
								_, err := n.force(s.b).wait()
								r.NoErr(err, "after its crash node %d refuses %v", n.slot, s.b)
								n.finalize(n.live[string(s.b.id)])
							}
							break
						}
					}
				}
			default: // follow another node
				l.land()
				o := l.nodes[g.Int(0, len(l.nodes)-1)]
				if n.last.b.h < o.last.b.h && bytes.Equal(o.chain[n.last.b.h].id, n.last.b.id) {
					x := o.chain[n.last.b.h+1]
					_, err := n.take(x, x.name).wait()
					r.NoErr(err, "node %d refuses %v", n.slot, x)
					r.Step("node %d follows with %v", n.slot, x)
					n.finalize(n.live[string(x.id)])
				}
			}
			l.land()
			if g.Chance(1, 3) {
				n.look(false)
			} else {
				n.ring()
			}
		}
		l.land()
		for _, n := range l.nodes {
			n.look(true)
		}
		for _, f := range dead {
			select {
			case <-f.ch:
				r.Fail("%s was cancelled, and ends", f.what)
			default:
			}
		}
		if forks > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
