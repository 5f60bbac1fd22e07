//go:debug asynctimerchan=0
package p34

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/consensus/fastsync"
	"github.com/icon-project/goloop/module"

	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// bubble runs f on a virtual clock, and passes its panics on.
func bubble(t *testing.T, f func()) {
	var p any
	func() {
		defer func() {
			if e := recover(); e != nil && !strings.Contains(fmt.Sprint(e), "blocked goroutines remain") {
				panic(e)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1)) // for repeatable runs
			defer func() { p = recover() }()
			f()
		})
	}()
	if p != nil {
		panic(p)
	}
}

type gen struct{ txs.G }

func (g gen) Pick(l ...int) int { return l[g.Int(0, len(l)-1)] }

const client = id("node")

// liar answers requests as it likes.
type liar struct {
	r     *kit.Rec
	x     *node
	c     *chain
	plan  []string
	n     int
	slow  time.Duration
	times map[string]int
}

var tricks = []string{"nothing", "no block", "garbage", "other ids", "half", "too much", "below zero", "empty", "another height",
	"no block at all", "false block", "true block", "false proof", "data first", "twice", "leave", "true block, leave", "false block, leave", "slow"}

func (l *liar) OnReceive(pi module.ProtocolInfo, b []byte, from module.PeerID) (bool, error) {
	if pi != fastsync.ProtoBlockRequest || len(l.plan) == 0 {
		return false, nil
	}
	var m fastsync.BlockRequest
	if _, err := codec.UnmarshalFromBytes(b, &m); err != nil {
		return false, err
	}
	k := l.plan[l.n%len(l.plan)]
	l.n++
	l.times[k]++
	h := min(m.Height, int64(len(l.c.blocks)-1))
	v, p := l.c.blocks[h], l.c.proofs[h]
	send := func(pi module.ProtocolInfo, o any) { _ = l.x.Unicast(pi, codec.MustMarshalToBytes(o), from) }
	meta := func(rid uint32, n int, p []byte) {
		send(fastsync.ProtoBlockMetadata, &fastsync.BlockMetadata{RequestID: rid, BlockLength: int32(n), Proof: p})
	}
	body := func(rid uint32, d []byte) {
		for len(d) > 0 {
			n := min(len(d), 7000)
			send(fastsync.ProtoBlockData, &fastsync.BlockData{RequestID: rid, Data: d[:n]})
			d = d[n:]
		}
	}
	give := func(v, p []byte) {
		meta(m.RequestID, len(v), p)
		body(m.RequestID, v)
	}
	leave := func() { go l.x.n.join(client, l.x.id, false) }
	act := func() {
		switch k {
		case "no block":
			meta(m.RequestID, -1, nil)
		case "garbage":
			_ = l.x.Unicast(fastsync.ProtoBlockMetadata, v[:8], from)
			_ = l.x.Unicast(fastsync.ProtoBlockData, nil, from)
		case "other ids":
			meta(m.RequestID+1, len(v), p)
			body(m.RequestID+1, v)
			meta(m.RequestID-1<<16, len(v), p)
		case "half":
			meta(m.RequestID, len(v), p)
			body(m.RequestID, v[:len(v)/2])
		case "too much":
			meta(m.RequestID, len(v)-1, p)
			body(m.RequestID, v)
		case "below zero":
			meta(m.RequestID, -7, p)
			body(m.RequestID, v)
		case "empty":
			meta(m.RequestID, 0, nil)
			send(fastsync.ProtoBlockData, &fastsync.BlockData{RequestID: m.RequestID})
		case "another height":
			give(l.c.blocks[(h+1)%int64(len(l.c.blocks))], p)
		case "no block at all":
			give([]byte("rubbish"), p)
		case "false block":
			give(data(m.Height, 50, 99), p)
		case "true block":
			give(v, p)
		case "false proof":
			give(v, []byte("wrong"))
		case "data first":
			body(m.RequestID, v)
			give(v, p)
		case "twice":
			give(v, p)
			give(v, p)
		case "leave":
			leave()
		case "true block, leave", "false block, leave":
			if k[0] == 'f' {
				v = data(m.Height, 50, 99)
			}
			give(v, p)
			time.AfterFunc(time.Duration(l.x.n.hi+1)*time.Millisecond, leave)
		case "slow":
			time.Sleep(3300 * time.Millisecond)
			give(v, p)
		}
	}
	time.AfterFunc(l.slow, act)
	return false, nil
}
func (l *liar) OnJoin(module.PeerID)  {}
func (l *liar) OnLeave(module.PeerID) {}

// catcher gets the blocks.
type catcher struct {
	mu      sync.Mutex
	r       *kit.Rec
	c       *chain
	next    int64
	end     int64
	wait    time.Duration
	trace   []string
	err     string
	fetch   int       // number of the fetch
	over    bool      // its end was reported
	since   time.Time // when it was
	steady  time.Time // since when a good peer is there for good
	pending bool
	began   time.Time
	rejects int
	ended   chan error
}

func (c *catcher) fail(f string, a ...any) {
	if c.err == "" {
		c.err = fmt.Sprintf(f, a...)
	}
}

// turn is the callback of one fetch.
type turn struct {
	c *catcher
	n int
}

func (t *turn) OnBlock(br fastsync.BlockResult) {
	c := t.c
	c.mu.Lock()
	if t.n != c.fetch || c.over {
		if time.Since(c.since) > 0 {
			c.fail("a block after the end of the fetch")
		}
		c.mu.Unlock()
		return
	}
	h := br.Block().Height()
	if h != c.next || c.pending {
		c.fail("block %d where %d was to come (still looking at one: %v)", h, c.next, c.pending)
	}
	c.pending = true
	c.mu.Unlock()
	time.Sleep(c.wait)
	c.mu.Lock()
	if t.n != c.fetch || c.over {
		c.mu.Unlock()
		if h%2 == 0 { // of no effect: the fetch was canceled
			br.Consume()
		} else {
			br.Reject()
		}
		return
	}
	c.pending = false
	good := h == c.next && bytes.Equal(br.Block().Hash(), c.c.blocks[h]) && bytes.Equal(br.Votes(), c.c.proofs[h])
	if good {
		c.next++
	} else {
		c.rejects++
	}
	c.mu.Unlock()
	if good {
		br.Consume()
	} else {
		br.Reject()
	}
}

func (t *turn) OnEnd(err error) {
	c := t.c
	c.mu.Lock()
	defer c.mu.Unlock()
	if t.n != c.fetch || c.over {
		c.fail("the end is reported twice, or after a cancel")
		return
	}
	c.over, c.since = true, time.Now()
	if c.next <= c.end && !c.steady.IsZero() && !c.began.Before(c.steady) {
		c.fail("the fetch ends (%v) before block %d, though a good peer is there", err, c.next)
	}
	c.ended <- err
}

func TestFetch(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "the node gets all blocks, and at least one liar was asked", Quick: 150000, Thorough: 5000000}, func(r *kit.Rec) {
		bubble(t, func() { fetch(r) })
	})
}

func fetch(r *kit.Rec) {
	g := gen{txs.G{T: r.T}}
	n := &net{links: map[[2]id]int{}, last: map[[2]id]time.Time{}, times: map[[2]id]int{}, full: map[[2]id]int{},
		seed: uint64(g.Int(0, 1<<30)), hi: g.Pick(0, 5, 50, 300), busy: g.Pick(0, 0, 10, 50)}
	top := g.Pick(1, 3, 8, 15, 30, 60)
	ch := &chain{top: int64(top)}
	for h := 0; h <= top; h++ {
		ch.blocks = append(ch.blocks, data(int64(h), g.Pick(0, 10, 10, 100, 9000, 10231, 25000), byte(h)))
		ch.proofs = append(ch.proofs, []byte(fmt.Sprintf("proof of %d", h)))
	}
	lg := log.New()
	x := n.add(client, nil)
	fm, err := fastsync.NewManagerOnlyForClient(x, ch, lg)
	r.NoErr(err, "no manager")
	servers := []fastsync.Manager{}
	var names []id
	good := g.Int(1, 3)
	for i := 0; i < good; i++ {
		c := *ch
		if i > 0 && g.Chance(1, 3) {
			c.top = int64(g.Int(0, top))
		}
		y := n.add(id(fmt.Sprintf("good%d", i)), nil)
		m, err := fastsync.NewManager(y, &c, &c, lg)
		r.NoErr(err, "no manager")
		m.StartServer()
		servers = append(servers, m)
		names = append(names, y.id)
	}
	defer func() {
		for _, i := range append(names, "rude") {
			n.join(client, i, false)
			n.join(i, "rude", false)
		}
		fm.Term()
		for _, m := range servers {
			m.StopServer()
			m.Term()
		}
		synctest.Wait()
	}()
	used := map[string]int{}
	for i, k := 0, g.Int(0, 4); i < k; i++ {
		l := &liar{r: r, c: ch, slow: time.Duration(g.Pick(0, 0, 10, 500)) * time.Millisecond, times: used}
		for j := g.Int(1, 5); j > 0; j-- {
			l.plan = append(l.plan, tricks[g.Int(0, len(tricks)-1)])
		}
		l.x = n.add(id(fmt.Sprintf("liar%d", i)), l)
		names = append(names, l.x.id)
		r.Step("liar%d, after %v: %s", i, l.slow, strings.Join(l.plan, "; "))
	}
	c := &catcher{r: r, c: ch, end: int64(g.Pick(g.Int(0, top), top, top)), wait: time.Duration(g.Pick(0, 1, 100, 4000)) * time.Millisecond, ended: make(chan error, 100)}
	c.next = int64(g.Int(0, int(c.end)))
	c.mu.Lock()
	r.Step("%d good ones; blocks %d to %d; delays up to %d ms, queues full %d%%, %v to check", good, c.next, c.end, n.hi, n.busy, c.wait)
	c.mu.Unlock()
	first := c.next
	check := func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		r.Need(c.err == "", "%s", c.err)
	}
	var cancel func() bool
	begin := func() {
		c.mu.Lock()
		c.fetch++
		c.over, c.pending = false, false
		c.began = time.Now()
		t := &turn{c, c.fetch}
		next := c.next
		c.mu.Unlock()
		var err error
		cancel, err = fm.FetchBlocks(next, c.end, t)
		r.NoErr(err, "FetchBlocks")
	}
	done := func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.next > c.end
	}
	run := func(d time.Duration) {
		for end := time.Now().Add(d); ; {
			left := time.Until(end)
			select {
			case <-c.ended:
				if !done() {
					time.Sleep(time.Second)
					begin()
				}
			case <-time.After(max(left, time.Microsecond)):
			}
			check()
			if !time.Now().Before(end) {
				return
			}
		}
	}
	join := func(i id, on bool) {
		if on {
			r.Step("%s joins", i)
		} else {
			r.Step("%s leaves", i)
		}
		n.join(client, i, on)
	}
	rude := n.add("rude", &liar{})
	for _, i := range names {
		if g.Chance(7, 8) {
			join(i, true)
		}
	}
	if n.links[[2]id{client, "good0"}] > 0 {
		c.steady = time.Now()
	}
	begin()
	for i := g.Int(0, 12); i > 0 && !done(); i-- {
		switch k := g.Int(0, 10); {
		case k == 10:
			to := append([]id{client}, names[:good]...)[g.Int(0, good)]
			n.join(to, rude.id, true)
			m := g.Pick(1, 5, 30)
			r.Step("a rude one sends %d messages to %s", m, to)
			for ; m > 0; m-- {
				pi := []module.ProtocolInfo{fastsync.ProtoBlockRequest, fastsync.ProtoBlockRequest, fastsync.ProtoBlockRequest,
					fastsync.ProtoCancelAllBlockRequests, fastsync.ProtoBlockMetadata, fastsync.ProtoBlockData, 0x4400}[g.Int(0, 6)]
				b := codec.MustMarshalToBytes(&fastsync.BlockRequest{RequestID: uint32(g.Int(0, 5)), Height: int64(g.Pick(-1, 0, 1, top, top+1, 1<<62)),
					ProofOption: int32(g.Pick(0, 0, 1))})
				if g.Chance(1, 5) {
					b = b[:g.Int(0, len(b))]
				}
				_ = rude.Unicast(pi, b, to)
			}
			if g.Chance(1, 3) {
				n.join(to, rude.id, false)
			}
		case k < 4:
			d := time.Duration(g.Pick(0, 1, 20, 300, 1000, 3500, 8000)) * time.Millisecond
			r.Step("wait %v", d)
			run(d)
		case k < 9:
			i := names[g.Int(0, len(names)-1)]
			on := g.Chance(1, 2)
			if i == "good0" && !on && !c.steady.IsZero() {
				continue
			}
			join(i, on)
			if i == "good0" && on && c.steady.IsZero() {
				c.mu.Lock()
				c.steady = time.Now()
				c.mu.Unlock()
			}
		default:
			c.mu.Lock()
			if c.over {
				c.mu.Unlock()
				continue
			}
			r.Step("cancel, and again")
			c.over, c.since = true, time.Now()
			c.mu.Unlock()
			cancel()
			time.Sleep(c.wait + time.Duration(g.Pick(0, 1, 5000))*time.Millisecond)
			begin()
		}
	}
	if c.steady.IsZero() {
		join("good0", true)
		c.mu.Lock()
		c.steady = time.Now()
		c.mu.Unlock()
	}
	for i := 0; !done(); i++ {
		if i > 0 && i > 20+10*(top+1)+20*len(names) {
			c.mu.Lock()
			defer c.mu.Unlock()
			r.Fail("block %d does not come, though a good peer is there for %v", c.next, time.Since(c.steady))
		}
		run(time.Second)
	}
	r.Step("all blocks are there, after %d rejected ones", c.rejects)
	run(10 * time.Second)
	c.mu.Lock()
	over := c.over
	c.mu.Unlock()
	r.Need(over, "the end is not reported")
	l := []string{}
	for k := range used {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		r.Label("liar: %s", k)
	}
	if c.rejects > 0 {
		r.Label("rejected")
	}
	if len(used) > 0 && c.end > first {
		r.NonTrivial("%s", r.TraceKey())
	}
}
