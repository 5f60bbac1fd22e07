package p34

import (
	"bytes"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/consensus/fastsync"
	"github.com/icon-project/goloop/module"

	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// asked is a request and what came for it.
type asked struct {
	rid      uint32
	h        int64
	canceled bool
	meta     *fastsync.BlockMetadata
	data     []byte
}

func (a *asked) complete() bool {
	return a.meta != nil && (a.meta.BlockLength < 0 || int(a.meta.BlockLength) == len(a.data))
}

// asker sends several requests at a time.
type asker struct {
	l   []*asked
	cur int
	c   *chain
	err string
}

func (a *asker) OnReceive(pi module.ProtocolInfo, b []byte, _ module.PeerID) (bool, error) {
	fail := func(f string, x ...any) {
		if a.err == "" {
			a.err = fmt.Sprintf(f, x...)
		}
	}
	var rid uint32
	var meta fastsync.BlockMetadata
	var body fastsync.BlockData
	switch pi {
	case fastsync.ProtoBlockMetadata:
		codec.MustUnmarshalFromBytes(b, &meta)
		rid = meta.RequestID
	case fastsync.ProtoBlockData:
		codec.MustUnmarshalFromBytes(b, &body)
		rid = body.RequestID
	default:
		return false, nil
	}
	for a.cur < len(a.l) && a.l[a.cur].rid != rid {
		if o := a.l[a.cur]; !o.canceled && !o.complete() {
			fail("request %d is answered before request %d is", rid, o.rid)
			return false, nil
		}
		a.cur++
	}
	if a.cur == len(a.l) {
		fail("an answer to request %d, which is not open", rid)
		return false, nil
	}
	o := a.l[a.cur]
	if pi == fastsync.ProtoBlockMetadata {
		if o.meta != nil {
			fail("request %d is answered twice", rid)
		}
		o.meta = &meta
		switch {
		case o.h < 0 || o.h > a.c.top:
			if meta.BlockLength >= 0 {
				fail("a length for block %d, which is not there", o.h)
			}
		case int(meta.BlockLength) != len(a.c.blocks[o.h]) || !bytes.Equal(meta.Proof, a.c.proofs[o.h]):
			fail("block %d of %d bytes is announced with %d bytes and proof %s", o.h, len(a.c.blocks[o.h]), meta.BlockLength, meta.Proof)
		}
		return false, nil
	}
	if o.meta == nil {
		fail("data without announcement for request %d", rid)
		return false, nil
	}
	o.data = append(o.data, body.Data...)
	if o.h < 0 || o.h > a.c.top || !bytes.HasPrefix(a.c.blocks[o.h], o.data) {
		fail("wrong data for block %d", o.h)
	}
	return false, nil
}
func (a *asker) OnJoin(module.PeerID)  {}
func (a *asker) OnLeave(module.PeerID) {}

func (a *asker) open() int {
	n := 0
	for _, o := range a.l[a.cur:] {
		if !o.canceled && !o.complete() {
			n++
		}
	}
	return n
}

func TestServe(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "several requests are open at a time", Quick: 60000, Thorough: 2000000}, func(r *kit.Rec) {
		bubble(t, func() { serve(r) })
	})
}

func serve(r *kit.Rec) {
	g := gen{txs.G{T: r.T}}
	n := &net{links: map[[2]id]int{}, last: map[[2]id]time.Time{}, times: map[[2]id]int{}, full: map[[2]id]int{},
		seed: uint64(g.Int(0, 1<<30)), hi: g.Pick(0, 5, 50, 300), busy: g.Pick(0, 0, 10, 50)}
	top := g.Pick(1, 3, 8)
	c := &chain{top: int64(top)}
	for h := 0; h <= top; h++ {
		c.blocks = append(c.blocks, data(int64(h), g.Pick(0, 10, 10, 100, 9000, 10231, 25000, 60000), byte(h)))
		c.proofs = append(c.proofs, []byte(fmt.Sprintf("proof of %d", h)))
	}
	x := n.add("server", nil)
	m, err := fastsync.NewManager(x, c, c, log.New())
	r.NoErr(err, "no manager")
	var l []*asker
	var l2 []*node
	for i, k := 0, g.Int(1, 3); i < k; i++ {
		a := &asker{c: c}
		l = append(l, a)
		l2 = append(l2, n.add(id(fmt.Sprintf("asker%d", i)), a))
	}
	if g.Chance(1, 2) {
		m.StartServer()
		defer m.StopServer()
	}
	for _, y := range l2 {
		n.join(x.id, y.id, true)
		y := y
		defer n.join(x.id, y.id, false)
	}
	m.StartServer()
	defer synctest.Wait()
	defer m.StopServer()
	check := func() {
		for _, a := range l {
			r.Need(a.err == "", "%s", a.err)
		}
	}
	r.Step("blocks up to %d, %d askers, delays up to %d ms, queues full %d%%", top, len(l), n.hi, n.busy)
	rid, most := uint32(0), 0
	for i := g.Int(1, 30); i > 0; i-- {
		k := g.Int(0, len(l)-1)
		a, y := l[k], l2[k]
		send := func(pi module.ProtocolInfo, o any) bool {
			for {
				err := y.Unicast(pi, codec.MustMarshalToBytes(o), x.id)
				if e, ok := err.(netErr); !ok || !e.temporary {
					return err == nil
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		switch p := g.Int(0, 19); {
		case p < 12:
			if a.open() >= 9 {
				continue
			}
			rid++
			o := &asked{rid: rid, h: int64(g.Pick(g.Int(0, top), g.Int(0, top), g.Int(0, top), -1, top+1))}
			r.Step("asker%d asks for block %d (%d)", k, o.h, rid)
			a.l = append(a.l, o)
			o.canceled = !send(fastsync.ProtoBlockRequest, &fastsync.BlockRequest{RequestID: rid, Height: o.h})
			most = max(most, a.open())
		case p < 16:
			ms := g.Pick(0, 1, 20, 400)
			r.Step("wait %d ms", ms)
			time.Sleep(time.Duration(ms) * time.Millisecond)
			check()
		case p < 18:
			r.Step("asker%d cancels", k)
			for _, o := range a.l {
				o.canceled = true
			}
			send(fastsync.ProtoCancelAllBlockRequests, &fastsync.CancelAllBlockRequests{})
		case p < 19:
			r.Step("asker%d leaves and comes back", k)
			for _, o := range a.l {
				o.canceled = true
			}
			n.join(x.id, y.id, false)
			time.Sleep(time.Duration(g.Pick(0, 500)) * time.Millisecond)
			n.join(x.id, y.id, true)
		default:
			r.Step("asker%d sends rubbish", k)
			_ = y.Unicast(fastsync.ProtoBlockRequest, []byte{0xc1}, x.id)
			_ = y.Unicast(0x7700, nil, x.id)
		}
	}
	time.Sleep(60 * time.Second)
	check()
	for k, a := range l {
		for _, o := range a.l {
			r.Need(o.canceled || o.complete(), "asker%d gets no (complete) answer to request %d", k, o.rid)
		}
	}
	r.Label("%d open", most)
	if most > 1 {
		r.NonTrivial("%s", r.TraceKey())
	}
}
