package p35

import (
	"bytes"
	"testing"

	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// A node takes the true blocks of others, and no forged ones.
func TestForged(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "some blocks are forged", Quick: 1400, Thorough: 40000}, func(r *kit.Rec) {
		g := txs.G{T: r.T}
		vals := txs.Pick(g, 1, 2, 3, 4, 4, 5, 6, 7)
		l := build(r, g, 2, vals)
		defer l.c.Close()
		forged := 0
		for h := 1; h <= txs.Pick(g, 4, 6, 8); h++ {
			a, b := l.nodes[0], l.nodes[1]
			up := a.last.b
			if h > 1 && len(voters(up)) == 0 {
				r.Step("nobody may vote any more")
				break
			}
			p, x, o := l.honest(a, up, func(ts int64) [][]byte {
				if h == 1 {
					return l.settle(txs.Pick(g, vals, 2, 7))
				}
				return l.pending(ts)
			})
			r.Step("height %d: %d voters, %d transactions", h, len(voters(up)), len(x.txs))
			try := func() {
				f, what, good := l.forge(x, o)
				if bytes.Equal(f.raw, x.raw) {
					good = true
				}
				n := txs.Pick(g, a, b, b, b)
				r.Step("node %d: %s", n.slot, what)
				r.Label("%s", what)
				im := n.take(f, what)
				im.loose = what == "another bloom filter" || what == "its parts written otherwise"
				y, err := im.wait()
				if im.loose && err == nil {
					// the same may be packed otherwise
					r.Need(bytes.Equal(y.raw, x.raw), "node %d takes a block with %s: %x instead of %x", n.slot, what, f.raw, x.raw)
					r.Label("read as the true one")
				} else if good {
					r.NoErr(err, "node %d refuses a block with %s", n.slot, what)
				} else {
					r.Need(err != nil, "node %d takes a block with %s: %x instead of %x", n.slot, what, f.raw, x.raw)
					forged++
				}
			}
			for i := g.Int(0, 5); i > 0; i-- {
				try()
			}
			if g.Chance(1, 6) {
				x = p
			}
			_, err := b.take(x, "the honest block").wait()
			r.NoErr(err, "node 1 refuses the honest %v", x)
			for i := g.Int(0, 3); i > 0; i-- {
				try()
			}
			a.finalize(a.live[string(x.id)])
			b.finalize(b.live[string(x.id)])
			if g.Chance(1, 3) {
				b.look(true)
			}
		}
		if forged > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
