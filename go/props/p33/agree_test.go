//go:debug asynctimerchan=0
package p33

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"

	"github.com/icon-project/goloop/zzpbt/cluster"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// bubble runs f on a virtual clock, and passes its panics on.
func bubble(t *testing.T, f func()) {
	var p any
	func() {
		defer func() {
			if e := recover(); e != nil && !strings.Contains(fmt.Sprint(e), "blocked goroutines remain") {
				panic(e)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1)) // for repeatable runs
			defer func() { p = recover() }()
			f()
		})
	}()
	if p != nil {
		panic(p)
	}
}

type gen struct{ txs.G }

func (g gen) Pick(l ...int) int { return l[g.Int(0, len(l)-1)] }

func short(b []byte) string {
	if len(b) > 4 {
		b = b[:4]
	}
	return fmt.Sprintf("%x", b)
}

// watch is what everybody has seen.
type watch struct {
	r      *kit.Rec
	mu     sync.Mutex
	c      *cluster.Cluster
	names  []string        // validator of a slot
	bad    map[string]bool // validators with two nodes
	votes  map[string]string
	blocks map[int64]string
	top    int64
	err    string
	rounds map[int32]int
	count  map[string]int
	old    []sent
	rules  []rule
	trap   map[int]string // kind of message before or after which a node crashes
	hits   map[int]bool
}

// rule says which messages get lost.
type rule struct {
	kind     string
	from, to int // bits
	percent  int
}

func kinds(mpi, pi module.ProtocolInfo, b []byte) string {
	if mpi != module.ProtoConsensus {
		return "other"
	}
	switch pi {
	case consensus.ProtoProposal:
		return "proposals"
	case consensus.ProtoBlockPart:
		return "parts"
	case consensus.ProtoVote, consensus.ProtoVoteList:
	default:
		return "other"
	}
	m, err := consensus.UnmarshalMessage(pi.Uint16(), b)
	if err != nil {
		return "other"
	}
	switch v := m.(type) {
	case *consensus.VoteMessage:
		return v.Type.String() + "s"
	case *consensus.VoteListMessage:
		for i := 0; i < v.VoteList.Len(); i++ {
			if x := v.VoteList.Get(i); x.Type == consensus.VoteTypePrecommit {
				return x.Type.String() + "s"
			}
		}
		return consensus.VoteTypePrevote.String() + "s"
	}
	return "other"
}

// rule adds rules, to the old ones or to none.
func (w *watch) rule(clear bool, l ...rule) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !clear {
		l = append(append([]rule{}, w.rules...), l...)
	}
	w.rules = l
}

func (w *watch) drop(from, to int, mpi, pi module.ProtocolInfo, b []byte, luck int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.rules) == 0 {
		return false
	}
	k := kinds(mpi, pi, b)
	for _, x := range w.rules {
		if (x.kind == k || x.kind == "messages") && x.from>>from&1 == 1 && x.to>>to&1 == 1 {
			if luck < x.percent {
				return true
			}
		}
	}
	return false
}

type sent struct {
	slot    int
	mpi, pi module.ProtocolInfo
	b       []byte
}

func (w *watch) fail(f string, a ...any) {
	if w.err == "" {
		w.err = fmt.Sprintf(f, a...)
	}
}

func (w *watch) spy(slot int, mpi, pi module.ProtocolInfo, b []byte) {
	w.mu.Lock()
	if len(w.old) < 3000 {
		w.old = append(w.old, sent{slot, mpi, pi, b})
	}
	w.mu.Unlock()
	if mpi != module.ProtoConsensus || pi != consensus.ProtoVote && pi != consensus.ProtoProposal {
		return
	}
	w.mu.Lock()
	k := w.trap[slot]
	w.mu.Unlock()
	if k != "" && k == kinds(mpi, pi, b) {
		w.c.CrashIn(slot, 0)
		w.mu.Lock()
		delete(w.trap, slot)
		w.hits[slot] = true
		w.mu.Unlock()
	}
	m, err := consensus.UnmarshalMessage(pi.Uint16(), b)
	w.mu.Lock()
	defer w.mu.Unlock()
	if err != nil {
		w.fail("node %d sends a message that can't be read: %v %v %x", slot, err, pi, b)
		return
	}
	if w.bad[w.names[slot]] {
		return
	}
	var key, val string
	switch v := m.(type) {
	case *consensus.VoteMessage:
		key = fmt.Sprintf("%s for height %d round %d", v.Type, v.Height, v.Round)
		val = fmt.Sprintf("%x", v.RoundDecisionDigest())
		if v.BlockPartSetIDAndNTSVoteCount == nil {
			val = "nil"
		}
		w.count[fmt.Sprint(v.Type)]++
	case *consensus.ProposalMessage:
		key = fmt.Sprintf("proposal for height %d round %d", v.Height, v.Round)
		val = fmt.Sprintf("%v %d", v.BlockPartSetID, v.POLRound)
		w.rounds[v.Round]++
	default:
		return
	}
	key = w.names[slot] + "'s " + key
	if o, ok := w.votes[key]; ok && o != val {
		w.fail("%s: signed twice, %s and %s", key, o, val)
	}
	w.votes[key] = val
}

// look compares the last blocks of all nodes.
func (w *watch) look() {
	for s := 0; s < w.c.Size(); s++ {
		f := w.c.Life(s)
		if f == nil {
			continue
		}
		b, err := f.BM().GetLastBlock()
		if err != nil || !f.Alive() {
			continue
		}
		w.mu.Lock()
		if o, ok := w.blocks[b.Height()]; ok && o != string(b.ID()) {
			w.fail("two blocks at height %d: node %d has %s, another one %s", b.Height(), s, short(b.ID()), short([]byte(o)))
		}
		w.blocks[b.Height()] = string(b.ID())
		if b.Height() > w.top {
			w.top = b.Height()
		}
		w.mu.Unlock()
	}
}

func TestAgree(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "several validator nodes run on a virtual network with crashes, losses or attacks, and agree afterwards", Quick: 700, Thorough: 20000, Sure: true}, func(r *kit.Rec) {
		bubble(t, func() { agree(r) })
	})
}

// Nodes which know different things about a round decide for one block only.
func TestLocks(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "one node decides before the others, and leaves or gets cut off", Quick: 350, Thorough: 10000, Sure: true}, func(r *kit.Rec) {
		bubble(t, func() {
			g := gen{txs.G{T: r.T}}
			w := setup(r, g, g.Pick(4, 4, 4, 4, 5, 6, 7), false, g.Pick(1000, 2000))
			defer w.c.Close()
			lo := g.Pick(0, 1, 10)
			w.c.Net.Delay = [2]int{lo, lo + g.Pick(0, 5, 50)}
			w.run(2 * time.Second)
			hit := false
			for i := g.Int(1, 4); i > 0; i-- {
				if g.Chance(1, 4) {
					w.hesitate(g, g.Int(0, w.c.Size()-1))
				} else if w.siege(g, g.Int(0, w.c.Size()-1)) {
					hit = true
				}
				for _, s := range w.c.Reap() {
					w.start(s)
				}
				w.run(time.Duration(g.Pick(500, 2000, 5000)) * time.Millisecond)
			}
			w.finish()
			if hit {
				r.NonTrivial("%s", r.TraceKey())
			}
		})
	})
}

// adversary sends messages which nobody should send.
func (w *watch) adversary(r *kit.Rec, g gen) {
	w.mu.Lock()
	old := append([]sent{}, w.old...)
	w.mu.Unlock()
	if len(old) == 0 {
		return
	}
	liar := -1
	for s, n := range w.names {
		if w.bad[n] {
			liar = s
		}
	}
	kind := g.Int(0, 2)
	if liar < 0 && kind == 2 {
		kind = 0
	}
	m := g.Pick(1, 3, 10, 30)
	recent := g.Chance(1, 2)
	to := g.Int(0, w.c.Size()-1)
	r.Step("%s %d messages to node %d (recent: %v)", []string{"somebody repeats", "somebody garbles", "the liar forges"}[kind], m, to, recent)
	for ; m > 0; m-- {
		lo := 0
		if recent {
			lo = max(0, len(old)-60)
		}
		o := old[g.Int(lo, len(old)-1)]
		b := append([]byte{}, o.b...)
		from := o.slot
		switch kind {
		case 1:
			for j := g.Int(1, 3); j > 0 && len(b) > 0; j-- {
				i := g.Int(0, len(b)-1)
				switch g.Int(0, 3) {
				case 0:
					b[i] ^= 1 << g.Int(0, 7)
				case 1:
					b[i] = byte(g.Pick(0, 0x80, 0xc0, 0xf8, 0xff))
				case 2:
					b = b[:i]
				default:
					b = append(b[:i:i], append([]byte{byte(g.Int(0, 255))}, b[i:]...)...)
				}
			}
		case 2:
			from = liar
			if b = w.forge(g, o, old, liar); b == nil {
				continue
			}
		}
		w.c.Net.Inject(from, to, o.mpi, o.pi, b)
	}
}

// forge signs a changed vote or proposal with the liar's key.
func (w *watch) forge(g gen, o sent, old []sent, liar int) []byte {
	if o.mpi != module.ProtoConsensus {
		return nil
	}
	m, err := consensus.UnmarshalMessage(o.pi.Uint16(), o.b)
	if err != nil {
		return nil
	}
	other := func() *consensus.PartSetIDAndAppData {
		for i := 0; i < 20; i++ {
			x := old[g.Int(0, len(old)-1)]
			if x.mpi == module.ProtoConsensus && x.pi == consensus.ProtoVote {
				if y, err := consensus.UnmarshalMessage(x.pi.Uint16(), x.b); err == nil {
					return y.(*consensus.VoteMessage).BlockPartSetIDAndNTSVoteCount
				}
			}
		}
		return nil
	}
	wal := w.c.Wallet(liar)
	switch v := m.(type) {
	case *consensus.VoteMessage:
		for j := g.Int(1, 2); j > 0; j-- {
			switch g.Int(0, 5) {
			case 0:
				v.Round = max(0, v.Round+int32(g.Int(-2, 3)))
			case 1:
				v.Height = max(1, v.Height+int64(g.Int(-2, 3)))
			case 2:
				v.Type = consensus.VoteType(g.Int(0, 1))
			case 3:
				v.Timestamp += int64(g.Pick(-1, 1, -1000000, 1000000, 1<<50, -(1 << 50)))
			case 4:
				v.SetRoundDecision(codec.MustMarshalToBytes(sim.NID), nil, nil)
			default:
				v.SetRoundDecision(v.BlockID, other(), nil)
			}
		}
		if v.Sign(wal) != nil {
			return nil
		}
		return codec.MustMarshalToBytes(v)
	case *consensus.ProposalMessage:
		switch g.Int(0, 3) {
		case 0:
			v.Round = max(0, v.Round+int32(g.Int(-2, 3)))
		case 1:
			v.Height = max(1, v.Height+int64(g.Int(-2, 3)))
		case 2:
			v.POLRound = int32(g.Int(-1, 3))
		default:
			if x := other(); x != nil {
				v.BlockPartSetID = x.ID()
			}
		}
		if v.Sign(wal) != nil {
			return nil
		}
		return codec.MustMarshalToBytes(v)
	}
	return nil
}

// siege keeps kinds of messages from nodes, so that what they know of a round
// differs, and then frees some of them only.
func (w *watch) siege(g gen, s int) bool {
	r := w.r
	all := 1<<w.c.Size() - 1
	kind := []string{"PreCommits", "PreCommits", "PreCommits", "PreVotes", "proposals"}[g.Int(0, 4)]
	ms := []int{g.Pick(300, 1000, 2000, 3000) + g.Int(0, 500), g.Pick(1000, 4000, 8000)}
	end := g.Pick(0, 1, 1, 2)
	o := (s + g.Int(1, max(1, w.c.Size()-1))) % w.c.Size()
	less := []string{"", "proposals", "parts", "PreVotes", "proposals and parts"}[g.Int(0, 4)]
	x := ""
	w.rule(false, rule{kind, all, all &^ (1 << s), 100})
	if less != "" {
		x = fmt.Sprintf(" and node %d no %s", o, less)
		for _, k := range strings.Split(less, " and ") {
			w.rule(false, rule{k, all, 1 << o, 100})
		}
	}
	r.Step("only node %d gets %s%s, for at most %d ms; then it %s, %d ms", s, kind, x, ms[0], []string{"goes on", "is alone", "crashes"}[end], ms[1])
	h, ahead := int64(0), false
	for d := time.Duration(0); d < time.Duration(ms[0])*time.Millisecond && !ahead; d += 20 * time.Millisecond {
		time.Sleep(20 * time.Millisecond)
		h = w.height(s)
		ahead = h > 0
		for i := 0; i < w.c.Size(); i++ {
			if i != s && w.height(i) >= h {
				ahead = false
			}
		}
	}
	w.check()
	w.rule(true)
	switch end {
	case 1:
		w.rule(true, rule{"messages", all, 1 << s, 100}, rule{"messages", 1 << s, all, 100})
	case 2:
		w.c.Crash(s)
	}
	if x := g.Int(0, 2); x > 0 && w.c.Size() > 1 {
		o := (s + g.Int(1, w.c.Size()-1)) % w.c.Size()
		if g.Chance(1, 2) {
			w.trapped(g, o)
		} else {
			ms := g.Pick(0, 100, 1000) + g.Int(0, 100)
			l := []int{}
			for i := 0; i < w.c.Size(); i++ {
				if i != s && (x == 2 || g.Chance(1, 2)) {
					l = append(l, i)
				}
			}
			r.Step("after %d ms nodes %v crash and start again", ms, l)
			w.run(time.Duration(ms) * time.Millisecond)
			for _, o := range l {
				w.c.Crash(o)
			}
			down := w.c.Reap()
			for _, o := range l {
				for _, x := range down {
					if x == o {
						w.start(x)
					}
				}
			}
		}
	}
	w.run(time.Duration(ms[1]) * time.Millisecond)
	w.rule(true)
	if ahead && end > 0 {
		for i := 0; i < w.c.Size(); i++ {
			if i != s && w.height(i) >= h {
				r.Label("the others decide without it")
				return true
			}
		}
		r.Label("one node ahead")
	}
	return ahead
}

// height of the last block of a node.
func (w *watch) height(s int) int64 {
	f := w.c.Life(s)
	if f == nil {
		return 0
	}
	b, err := f.BM().GetLastBlock()
	if err != nil {
		return 0
	}
	return b.Height()
}

// hesitate makes a node see no majority in time, and lets it see one when it
// is back from a crash.
func (w *watch) hesitate(g gen, s int) {
	all := 1<<w.c.Size() - 1
	a := (s + g.Int(1, w.c.Size()-1)) % w.c.Size()
	b := (s + g.Int(1, w.c.Size()-1)) % w.c.Size()
	w.r.Step("node %d gets no proposals and parts, and node %d no votes of %d", a, s, b)
	w.rule(false, rule{"proposals", all, 1 << a, 100}, rule{"parts", all, 1 << a, 100},
		rule{"PreVotes", 1 << b, 1 << s, 100}, rule{"PreCommits", 1 << b, 1 << s, 100}, rule{"PreVotes", 1 << a, 1 << b, g.Pick(0, 100)})
	w.trapped(g, s)
	w.rule(true)
	w.run(time.Duration(g.Pick(500, 2000, 5000)) * time.Millisecond)
}

// trapped crashes a node when it sends some message, and starts it again.
func (w *watch) trapped(g gen, s int) {
	r := w.r
	kind := []string{"PreVotes", "PreCommits", "PreCommits", "proposals"}[g.Int(0, 3)]
	after := g.Pick(0, 0, 100, 1000)
	r.Step("node %d crashes at one of its %s and starts %d ms later", s, kind, after)
	w.mu.Lock()
	w.trap[s] = kind
	w.mu.Unlock()
	for i := 0; i < 50; i++ {
		w.run(100 * time.Millisecond)
		w.mu.Lock()
		hit := w.hits[s]
		w.mu.Unlock()
		if hit {
			break
		}
	}
	w.mu.Lock()
	hit := w.hits[s]
	delete(w.trap, s)
	delete(w.hits, s)
	w.mu.Unlock()
	if hit {
		w.c.Crash(s)
	}
	w.rule(true)
	w.run(time.Duration(after) * time.Millisecond)
	for _, x := range w.c.Reap() {
		if x == s {
			w.start(s)
		}
	}
}

// setup starts the nodes of n validators.
func setup(r *kit.Rec, g gen, n int, twin bool, every int) *watch {
	cfg := cluster.Config{Every: time.Duration(every) * time.Millisecond, Seed: uint64(g.Int(0, 1<<30))}
	hc := hmodel.Config{Rev: 0, StepPrice: 0, TermPeriod: 43200, NoDefault: true, USDT: big.NewInt(100000),
		Accounts: map[string]*big.Int{}}
	w := &watch{bad: map[string]bool{}, votes: map[string]string{}, blocks: map[int64]string{}, rounds: map[int32]int{}, count: map[string]int{},
		trap: map[int]string{}, hits: map[int]bool{}}
	for i := 0; i < n; i++ {
		x := txs.Wallet(i)
		cfg.Wallets = append(cfg.Wallets, x)
		hc.Validators = append(hc.Validators, x.Address().String())
		hc.Accounts[x.Address().String()] = hworld.Coins(1000)
		w.names = append(w.names, fmt.Sprintf("v%d", i))
	}
	if twin {
		i := g.Int(0, n-1)
		cfg.Wallets = append(cfg.Wallets, cfg.Wallets[i])
		w.names = append(w.names, w.names[i])
		w.bad[w.names[i]] = true
		r.Step("%d validators, v%d runs two nodes (%d and %d)", n, i, i, n)
	} else {
		r.Step("%d validators", n)
	}
	cfg.Genesis = hworld.Genesis(hc)
	c := cluster.New(r.TempDir(), cfg)
	w.c = c
	c.Net.Spy = w.spy
	c.Net.Drop = w.drop
	w.r = r
	for s := 0; s < c.Size(); s++ {
		w.start(s)
	}
	return w
}

func (w *watch) start(s int) {
	w.r.NoErr(w.c.Start(s, 0), "node %d does not start", s)
}

func (w *watch) check() {
	w.look()
	w.mu.Lock()
	e := w.err
	w.mu.Unlock()
	w.r.Need(e == "", "%s", e)
}

func (w *watch) run(d time.Duration) {
	for d > 0 {
		x := min(d, 100*time.Millisecond)
		time.Sleep(x)
		d -= x
		w.check()
	}
}

func agree(r *kit.Rec) {
	g := gen{txs.G{T: r.T}}
	n := g.Pick(4, 4, 4, 4, 3, 2, 1, 5)
	w := setup(r, g, n, n >= 4 && g.Chance(2, 5), g.Pick(200, 500, 1000))
	c := w.c
	defer c.Close()
	nonce := int64(0)
	for i := g.Int(1, 25); i > 0; i-- {
		down := c.Reap()
		s := g.Int(0, c.Size()-1)
		switch k := g.Int(0, 99); {
		case k < 30:
			ms := g.Pick(10, 100, 500, 1500, 4000) + g.Int(0, 100)
			r.Step("wait %d ms", ms)
			w.run(time.Duration(ms) * time.Millisecond)
		case k < 45:
			m := g.Pick(0, 3, 10, 40, 150) + g.Int(0, 10)
			r.Step("node %d crashes in %d effects", s, m)
			c.CrashIn(s, m)
		case k < 50:
			r.Step("node %d crashes", s)
			c.Crash(s)
		case k < 68:
			if len(down) == 0 {
				continue
			}
			s = down[g.Int(0, len(down)-1)]
			r.Step("node %d starts", s)
			w.start(s)
		case k < 72:
			x := rule{[]string{"PreVotes", "PreCommits", "proposals", "parts", "messages"}[g.Int(0, 4)],
				g.Pick(g.Int(1, 1<<c.Size()-1), 1<<c.Size()-1), g.Pick(g.Int(1, 1<<c.Size()-1), 1<<c.Size()-1), g.Pick(30, 100)}
			r.Step("%d%% of the %s of %b to %b are lost", x.percent, x.kind, x.from, x.to)
			w.rule(false, x)
		case k < 75:
			w.siege(g, s)
		case k < 77:
			w.trapped(g, s)
		case k < 78 && c.Size() > 1:
			w.hesitate(g, s)
		case k < 79:
			if c.Size() < 2 {
				continue
			}
			o := (s + g.Int(1, c.Size()-1)) % c.Size()
			r.Step("no link between %d and %d", s, o)
			c.Net.Cut(s, o, true)
		case k < 85:
			r.Step("all links")
			w.rule(true)
			for a := 0; a < c.Size(); a++ {
				for b := 0; b < a; b++ {
					c.Net.Cut(a, b, false)
				}
			}
		case k < 90:
			lo := g.Pick(0, 1, 10, 300, 1500)
			hi := lo + g.Pick(0, 5, 50, 1000, 2500)
			r.Step("delays of %d to %d ms", lo, hi)
			c.Net.Delay = [2]int{lo, hi}
		case k < 98 && k >= 94 || k < 94 && k >= 92 && len(w.bad) > 0:
			w.adversary(r, g)
		case k < 94:
			c.Net.Loss = g.Pick(0, 1, 10, 30, 60)
			r.Step("%d%% are lost", c.Net.Loss)
		default:
			f := c.Life(s)
			if f == nil {
				continue
			}
			nonce++
			x := txs.Wallet(g.Int(0, n-1))
			r.Step("node %d gets a transaction", s)
			tx := sim.NewTx(x.Address().String(), txs.Wallet(g.Int(0, 7)).Address().String(), big.NewInt(nonce), "", nil, time.Now().UnixMicro(), nonce)
			_, _ = f.SM().SendTransaction(nil, 0, tx.Bytes())
		}
	}
	w.finish()
	r.NonTrivial("%s", r.TraceKey())
}

// finish makes the network good again: everybody must go on and agree.
func (w *watch) finish() {
	r, c := w.r, w.c
	c.Reap()
	r.Step("the network is good again, at height %d", w.top)
	c.Net.Delay = [2]int{1, 20}
	c.Net.Loss = 0
	w.rule(true)
	for a := 0; a < c.Size(); a++ {
		for b := 0; b < a; b++ {
			c.Net.Cut(a, b, false)
		}
		if f := c.Life(a); f != nil {
			c.CrashIn(a, 1<<40)
		}
	}
	for _, s := range c.Reap() {
		w.start(s)
	}
	goal := w.top + 3
	began := time.Now()
	for {
		w.run(time.Second)
		ok := true
		for s := 0; s < c.Size(); s++ {
			b, err := c.Life(s).BM().GetLastBlock()
			r.NoErr(err, "node %d has no last block", s)
			if b.Height() < goal && !w.bad[w.names[s]] {
				ok = false
			}
		}
		if ok {
			break
		}
		if time.Since(began) > 3*time.Minute {
			st := []string{}
			for s := 0; s < c.Size(); s++ {
				x := c.Life(s).CS().GetStatus()
				st = append(st, fmt.Sprintf("node %d: height %d round %d", s, x.Height, x.Round))
			}
			r.Fail("no progress to height %d in three good minutes: %s", goal, strings.Join(st, ", "))
		}
	}
	var last, now int64
	for h := int64(0); h <= goal; h++ {
		var id []byte
		last = now
		for s := 0; s < c.Size(); s++ {
			if w.bad[w.names[s]] {
				continue
			}
			b, err := c.Life(s).BM().GetBlockByHeight(h)
			r.NoErr(err, "node %d has no block %d", s, h)
			if id != nil && !bytes.Equal(id, b.ID()) {
				r.Fail("two blocks at height %d", h)
			}
			id = b.ID()
			if h > 1 {
				e := audit(c.Life(s).BM(), b)
				r.Need(e == "", "block %d, which is final, has no proof: %s", h-1, e)
			}
			r.Need(h <= 1 || b.Timestamp() > last, "block %d is not later than block %d", h, h-1)
			now = b.Timestamp()
			if o, ok := w.blocks[h]; ok && o != string(id) {
				r.Fail("block %d was another one before", h)
			}
		}
	}
	r.Label("recovered in %d s", int(time.Since(began).Seconds()+9)/10*10)
	top := int32(0)
	for x := range w.rounds {
		top = max(top, x)
	}
	r.Label("round %d", min(top, 5))
	for _, e := range c.Ended() {
		r.Label("crash at %s", e)
	}
}
