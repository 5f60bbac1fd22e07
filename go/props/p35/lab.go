package p35

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"

	"github.com/icon-project/goloop/zzpbt/cluster"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/ref"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

const start = int64(1600000000000000) // time of the second block

// fields of a header
const (
	fVersion = iota
	fHeight
	fTime
	fProposer
	fPrev
	fVotes
	fNext
	fPatches
	fNormals
	fBloom
	fResult
	fFilter
)

// blk is a block somebody has made.
type blk struct {
	name   string
	up     *blk
	h, ts  int64
	id     []byte
	raw    []byte
	hd, bd *txs.Item
	txs    []string // names of its transactions
	next   []string // who may vote for the next but one... see voters
	known  bool     // next is known
}

func (b *blk) String() string { return b.name }

// lab makes blocks.
type lab struct {
	r     *kit.Rec
	g     txs.G
	c     *cluster.Cluster
	nodes []*node
	all   []*blk
	who   map[string]module.Wallet
	nonce int64
	gen   *blk
	root  string
}

func num(n int64) *txs.Item {
	y, _, _ := txs.Parse(codec.MustMarshalToBytes(n))
	return y
}

func int64Of(x *txs.Item) int64 {
	var v int64
	if _, err := codec.UnmarshalFromBytes(x.Bytes(), &v); err != nil {
		panic(kit.Broken(fmt.Sprintf("no number: %x", x.Bytes())))
	}
	return v
}

func list(l ...*txs.Item) *txs.Item { return &txs.Item{List: true, Kids: l} }
func str(b []byte) *txs.Item        { return &txs.Item{B: b} }

func build(r *kit.Rec, g txs.G, size, vals int) *lab {
	l := &lab{r: r, g: g, who: map[string]module.Wallet{}}
	cfg := cluster.Config{Quiet: true, Seed: 1}
	hc := hmodel.Config{Rev: txs.Pick(g, 0, 2, 4, 5, 7), StepPrice: 0, TermPeriod: 43200, NoDefault: true, USDT: big.NewInt(100000), Accounts: map[string]*big.Int{}}
	for i := 0; i < 8; i++ {
		w := txs.Wallet(i)
		a := w.Address().String()
		l.who[a] = w
		hc.Accounts[a] = hworld.Coins(1000)
		if i < vals {
			hc.Validators = append(hc.Validators, a)
		}
		if i < size {
			cfg.Wallets = append(cfg.Wallets, w)
		}
	}
	cfg.Genesis = hworld.Genesis(hc)
	l.c = cluster.New(r.TempDir(), cfg)
	r.Step("%d validators, %d nodes, revision %d", vals, size, hc.Rev)
	for i := 0; i < size; i++ {
		r.NoErr(l.c.Start(i, 0), "node %d doesn't start", i)
		n := &node{l: l, slot: i}
		n.reset()
		b, err := n.bm().GetLastBlock()
		r.NoErr(err, "no genesis block")
		if l.gen == nil {
			l.gen = l.read(b)
			l.gen.name = "the genesis block"
			l.all = append(l.all, l.gen)
		}
		r.Need(bytes.Equal(b.ID(), l.gen.id), "the genesis blocks differ")
		n.last = &spot{b: l.gen}
		n.live[string(l.gen.id)] = n.last
		n.chain = []*blk{l.gen}
		l.nodes = append(l.nodes, n)
	}
	return l
}

func bytesOf(b module.BlockData) []byte {
	var w bytes.Buffer
	if err := b.Marshal(&w); err != nil {
		panic(kit.Broken(fmt.Sprintf("a block has no bytes: %v", err)))
	}
	return w.Bytes()
}

// parse splits the bytes of a block.
func parse(raw []byte) (hd, bd *txs.Item) {
	hd, rest, ok := txs.Parse(raw)
	if !ok {
		panic(kit.Broken("no header"))
	}
	bd, rest, ok = txs.Parse(rest)
	if !ok || len(rest) != 0 {
		panic(kit.Broken("no body"))
	}
	return hd, bd
}

// read what a node says of a block it made or took.
func (l *lab) read(x module.Block) *blk {
	b := l.of(bytesOf(x), nil)
	l.r.Need(bytes.Equal(x.ID(), b.id), "the id of a block isn't the hash of its header")
	l.r.Need(x.Height() == b.h && x.Timestamp() == b.ts, "a block says height %d and time %d, but its bytes %d and %d", x.Height(), x.Timestamp(), b.h, b.ts)
	b.next, b.known = sim.Addresses(x.NextValidators()), true
	return b
}

// of knows a block by its bytes.
func (l *lab) of(raw []byte, up *blk) *blk {
	hd, bd := parse(raw)
	b := &blk{raw: raw, hd: hd, bd: bd, h: int64Of(hd.Kids[fHeight]), ts: int64Of(hd.Kids[fTime]), id: ref.Sum(hd.Bytes()), up: up}
	for _, t := range bd.Kids[1].Kids {
		b.txs = append(b.txs, l.idOf(t.B))
	}
	return b
}

// idOf a transaction.
func (l *lab) idOf(bs []byte) string {
	t, err := transaction.NewTransaction(bs)
	if err != nil {
		return ""
	}
	return string(t.ID())
}

// add a block which is new.
func (l *lab) add(b *blk) *blk {
	for _, o := range l.all {
		if bytes.Equal(o.id, b.id) {
			if b.known && !o.known {
				o.next, o.known = b.next, true
			}
			return o
		}
	}
	b.name = fmt.Sprintf("block %d", len(l.all))
	l.all = append(l.all, b)
	return b
}

// voters of a block.
func voters(b *blk) []string {
	if b.h == 0 {
		return nil
	}
	return b.up.next
}

type ballot struct {
	who        string
	height     int64
	round      int64
	kind       int64
	block      []byte
	part       *txs.Item
	ts, signed int64 // time stated, and signed
}

func (l *lab) item(v ballot) *txs.Item {
	m := list(num(v.height), num(v.round), num(v.kind), str(v.block), v.part, num(v.signed))
	return list(num(v.ts), str(txs.Sign(l.who[v.who], ref.Sum(m.Bytes()))))
}

func (l *lab) part() *txs.Item {
	return list(num(int64(l.g.Int(1, 300))), str(ref.Sum([]byte{byte(l.g.Int(0, 3))})))
}

func shuffle[E any](g txs.G, s []E) []E {
	o := append([]E{}, s...)
	for i := len(o) - 1; i > 0; i-- {
		j := g.Int(0, i)
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// ballots of a proper proof for a block.
func (l *lab) ballots(b *blk) []ballot {
	vs := shuffle(l.g, voters(b))
	if len(vs) == 0 {
		return nil
	}
	k := l.g.Int(len(vs)*2/3+1, len(vs))
	round, part := int64(txs.Pick(l.g, 0, 0, 1, 5)), l.part()
	base := max(start, b.ts)
	var o []ballot
	for i := 0; i < k; i++ {
		t := base + 1 + int64(l.g.Int(0, 2000000))
		if i < (k-1)/2 {
			t = txs.Pick(l.g, t, t, t-3000000, t+60000000, 1, 1<<60)
		}
		o = append(o, ballot{who: vs[i], height: b.h, round: round, kind: 1, block: b.id, part: part, ts: t, signed: t})
	}
	return shuffle(l.g, o)
}

// proof made of ballots.
func (l *lab) proof(o []ballot) *txs.Item {
	x := list(num(0), &txs.Item{Nil: true}, list())
	if len(o) == 0 {
		y, _, _ := txs.Parse(consensus.NewEmptyCommitVoteList().Bytes())
		return y
	}
	x.Kids[0], x.Kids[1] = num(o[0].round), o[0].part
	for _, v := range o {
		x.Kids[2].Kids = append(x.Kids[2].Kids, l.item(v))
	}
	return x
}

// median of the times of votes.
func median(o []ballot) int64 {
	if len(o) == 0 {
		return 0
	}
	ts := []int64{}
	for _, v := range o {
		ts = append(ts, v.ts)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	n := len(ts)
	if n%2 == 1 {
		return ts[n/2]
	}
	s := new(big.Int).Add(big.NewInt(ts[n/2-1]), big.NewInt(ts[n/2]))
	return s.Quo(s, big.NewInt(2)).Int64()
}

// transfer makes a signed transfer.
func (l *lab) transfer(ts int64, sign func(m map[string]any)) []byte {
	l.nonce++
	w := l.g.Int(0, 7)
	m := map[string]any{"version": "0x3", "from": txs.Address(w), "to": txs.Address(l.g.Int(0, 9)), "value": sim.Num(int64(l.g.Int(0, 9))), "stepLimit": sim.Num(1 << 40),
		"timestamp": sim.Num(ts), "nid": "0x1", "nonce": sim.Num(l.nonce)}
	txs.Signed(txs.Wallet(w), m)
	if sign != nil {
		sign(m)
	}
	js, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	t, err := transaction.NewTransactionFromJSON(js)
	if err != nil {
		panic(kit.Broken(fmt.Sprintf("no transaction %s: %v", js, err)))
	}
	return t.Bytes()
}

// order makes a transaction of the governance or of a validator.
func (l *lab) order(ts int64) []byte {
	l.nonce++
	from, method := hmodel.Governance, "setActiveValidatorCount"
	params := map[string]any{"count": sim.Num(int64(l.g.Int(1, 7)))}
	if l.g.Chance(1, 4) {
		from, method = txs.Address(l.g.Int(0, 6)), "unregisterValidator"
		params = map[string]any{"owner": from}
	}
	return sim.NewTx(from, hmodel.System, new(big.Int), method, params, ts, l.nonce).Bytes()
}

// pending transactions for a block of this time.
func (l *lab) pending(ts int64) [][]byte {
	var o [][]byte
	for i := txs.Pick(l.g, 0, 0, 1, 2, 3); i > 0; i-- {
		if l.g.Chance(1, 3) {
			o = append(o, l.order(ts+int64(l.g.Int(-1000, 1000))))
		} else {
			o = append(o, l.transfer(ts+int64(l.g.Int(-1000, 1000)), nil))
		}
	}
	return o
}

// node is one node, and what should be true of it.
type node struct {
	l     *lab
	slot  int
	live  map[string]*spot
	last  *spot
	chain []*blk
	held  []held
	waits []*wait
}

type held struct {
	s *spot
	c module.BlockCandidate
}

// spot is a block a node works on.
type spot struct {
	b    *blk
	up   *spot
	kids []*spot
	held int
}

type wait struct {
	h  int64
	tx string
	bc <-chan module.Block
	tc <-chan any
}

type answer struct {
	c   module.BlockCandidate
	err error
}

type flight struct {
	n     *node
	what  string
	up    *blk
	b     *blk // nil for proposals
	ch    chan answer
	stop  module.Canceler
	err   error
	loose bool // the bytes may be changed
	ok    int  // 1 must be taken, 0 may be, -1 must not
}

func (n *node) bm() module.BlockManager { return n.l.c.Life(n.slot).BM() }
func (n *node) reset()                  { n.live, n.held, n.waits = map[string]*spot{}, nil, nil }

func (n *node) propose(up *blk, proof []byte) *flight {
	f := &flight{n: n, up: up, what: fmt.Sprintf("node %d's proposal after %v", n.slot, up), ch: make(chan answer, 4)}
	f.stop, f.err = n.bm().Propose(up.id, consensus.NewCommitVoteSetFromBytes(proof), func(c module.BlockCandidate, err error) { f.ch <- answer{c, err} })
	return f
}

func (n *node) take(b *blk, what string) *flight { return n.takes(b, what, 0) }

// force takes a block which is decided.
func (n *node) force(b *blk) *flight { return n.takes(b, b.name, module.ImportByForce) }

func (n *node) takes(b *blk, what string, flags int) *flight {
	f := &flight{n: n, up: b.up, b: b, what: fmt.Sprintf("node %d's import of %s", n.slot, what), ch: make(chan answer, 4)}
	f.stop, f.err = n.bm().Import(bytes.NewReader(b.raw), flags, func(c module.BlockCandidate, err error) { f.ch <- answer{c, err} })
	return f
}

// wait for the end; the block is nil if it was refused.
func (f *flight) wait() (*blk, error) {
	r := f.n.l.r
	if f.err != nil {
		return nil, f.err
	}
	var a answer
	select {
	case a = <-f.ch:
	case <-time.After(20 * time.Second):
		r.Fail("%s never ends", f.what)
	}
	if a.err != nil {
		r.Need(a.c == nil, "%s gives a block and an error", f.what)
		return nil, a.err
	}
	return f.n.got(f, a.c), nil
}

// got a candidate.
func (n *node) got(f *flight, c module.BlockCandidate) *blk {
	l, r := n.l, n.l.r
	b := l.read(c)
	b.up = f.up
	if f.b != nil && !f.loose {
		r.Need(bytes.Equal(b.id, f.b.id), "%s gives another block", f.what)
		r.Need(bytes.Equal(b.raw, f.b.raw), "%s changes the block from\n%x to\n%x", f.what, f.b.raw, b.raw)
	}
	b = l.add(b)
	s := n.live[string(b.id)]
	if s == nil {
		s = &spot{b: b, up: n.live[string(f.up.id)]}
		n.live[string(b.id)] = s
		if s.up != nil {
			s.up.kids = append(s.up.kids, s)
		}
	}
	s.held++
	n.held = append(n.held, held{s, c})
	return b
}

func (n *node) gone(s *spot) {
	for _, k := range s.kids {
		n.gone(k)
	}
	delete(n.live, string(s.b.id))
}

// drop a reference.
func (n *node) drop(s *spot) {
	s.held--
	for s != nil && n.live[string(s.b.id)] == s && s != n.last && s.held <= 0 && len(s.kids) == 0 {
		delete(n.live, string(s.b.id))
		if up := s.up; up != nil {
			for i, k := range up.kids {
				if k == s {
					up.kids = append(up.kids[:i:i], up.kids[i+1:]...)
				}
			}
		}
		s = s.up
	}
}

// done: the block is final.
func (n *node) done(s *spot) {
	old := n.last
	for _, k := range old.kids {
		if k != s {
			n.gone(k)
		}
	}
	delete(n.live, string(old.b.id))
	s.up = nil
	n.last = s
	n.chain = append(n.chain, s.b)
}

// fix the hashes of a block after its contents changed.
func (l *lab) fix(b *blk) *blk {
	sm := l.c.Life(l.nodes[0].slot).SM()
	for i, f := range []int{fPatches, fNormals} {
		var ts []module.Transaction
		for _, x := range b.bd.Kids[i].Kids {
			t, err := transaction.NewTransaction(x.B)
			if err != nil {
				panic(kit.Broken(fmt.Sprintf("no transaction: %v", err)))
			}
			ts = append(ts, t)
		}
		h := sm.TransactionListFromSlice(ts, module.BlockVersion2).Hash()
		b.hd.Kids[f] = &txs.Item{B: h, Nil: h == nil}
	}
	b.hd.Kids[fVotes] = str(ref.Sum(b.bd.Kids[2].B))
	return l.of(append(b.hd.Bytes(), b.bd.Bytes()...), b.up)
}

// craft a block from a proposal, with more transactions and perhaps another
// proposer.
func (l *lab) craft(p *blk, more [][]byte) *blk {
	b := &blk{up: p.up, hd: p.hd.Copy(), bd: p.bd.Copy()}
	for _, t := range more {
		b.bd.Kids[1].Nil, b.bd.Kids[1].List = false, true
		b.bd.Kids[1].Kids = append(b.bd.Kids[1].Kids, str(t))
	}
	if l.g.Chance(1, 3) {
		b.hd.Kids[fProposer] = str(l.who[txs.Address(l.g.Int(0, 7))].Address().Bytes())
	}
	return l.fix(b)
}

// settle registers the validators in the first block.
func (l *lab) settle(vals int) [][]byte {
	var o [][]byte
	call := func(method string, params map[string]any) {
		l.nonce++
		o = append(o, sim.NewTx(hmodel.Governance, hmodel.System, new(big.Int), method, params, l.nonce, l.nonce).Bytes())
	}
	for i := 0; i < 7; i++ {
		gr := "sub"
		if i < 2 {
			gr = "main"
		}
		call("registerValidator", map[string]any{"owner": txs.Address(i), "nodePublicKey": fmt.Sprintf("0x%x", txs.Wallet(i).PublicKey()), "grade": gr, "name": fmt.Sprint("v", i)})
	}
	call("setActiveValidatorCount", map[string]any{"count": sim.Num(int64(vals))})
	return o
}

// same checks that a node shows a block as it is.
func (n *node) same(b *blk, x module.Block, err error, how string) {
	r := n.l.r
	r.NoErr(err, "node %d doesn't find %v by %s", n.slot, b, how)
	r.Need(x != nil && bytes.Equal(x.ID(), b.id), "node %d finds another block than %v by %s", n.slot, b, how)
	r.Need(bytes.Equal(bytesOf(x), b.raw), "node %d shows other bytes of %v, found by %s:\n%x not\n%x", n.slot, b, how, bytesOf(x), b.raw)
	r.Need(x.Height() == b.h && x.Timestamp() == b.ts, "node %d shows %v with height %d and time %d, found by %s", n.slot, b, x.Height(), x.Timestamp(), how)
	if b.known {
		got := sim.Addresses(x.NextValidators())
		r.Need(fmt.Sprint(got) == fmt.Sprint(b.next), "node %d shows %v with validators %v, not %v, found by %s", n.slot, b, got, b.next, how)
	}
}

// look things up.
func (n *node) look(all bool) {
	r, g, bm := n.l.r, n.l.g, n.bm()
	x, err := bm.GetLastBlock()
	n.same(n.last.b, x, err, "GetLastBlock")
	check := func(i int) {
		b := n.chain[i]
		x, err := bm.GetBlockByHeight(int64(i))
		n.same(b, x, err, "height")
		x, err = bm.GetBlock(b.id)
		n.same(b, x, err, "id")
		for j, t := range b.txs {
			ti, err := bm.GetTransactionInfo([]byte(t))
			r.NoErr(err, "node %d doesn't find a transaction of %v", n.slot, b)
			r.Need(bytes.Equal(ti.Block().ID(), b.id) && ti.Index() == j && ti.Group() == module.TransactionGroupNormal,
				"node %d finds transaction %d of %v at %d of %x", n.slot, j, b, ti.Index(), ti.Block().ID())
			tx, err := ti.Transaction()
			r.NoErr(err, "no transaction")
			r.Need(string(tx.ID()) == t, "node %d shows another transaction at %d of %v", n.slot, j, b)
			rc, err := ti.GetReceipt()
			if i+1 == len(n.chain) {
				r.Need(err != nil && rc == nil, "node %d has a receipt of the last block's transaction", n.slot)
			} else {
				r.NoErr(err, "node %d has no receipt for transaction %d of %v", n.slot, j, b)
				to := rc.To()
				r.Need(to != nil && b.h != 0 && to.Equal(tx.(transaction.Transaction).To()) || b.h == 0, "node %d: the receipt isn't of transaction %d of %v", n.slot, j, b)
			}
		}
	}
	if all {
		for i := range n.chain {
			check(i)
		}
	} else {
		check(g.Int(0, len(n.chain)-1))
	}
	x, err = bm.GetBlockByHeight(int64(len(n.chain) + g.Int(0, 2)))
	r.Need(err != nil, "node %d has block %d, but the last one is %d", n.slot, len(n.chain), n.last.b.h)
	in := map[string]bool{}
	mine := map[string]bool{}
	for _, b := range n.chain {
		mine[string(b.id)] = true
		for _, t := range b.txs {
			in[t] = true
		}
	}
	for _, b := range n.l.all {
		if !mine[string(b.id)] {
			if x, err := bm.GetBlock(b.id); err == nil {
				r.Fail("node %d has %v, which isn't in its chain (%v)", n.slot, b, x)
			}
		}
		for _, t := range b.txs {
			if !in[t] {
				if _, err := bm.GetTransactionInfo([]byte(t)); err == nil {
					r.Fail("node %d finds a transaction of %v, which isn't in its chain", n.slot, b)
				}
			}
		}
	}
	n.ring()
}

// ring checks who waits for something.
func (n *node) ring() {
	r := n.l.r
	var rest []*wait
	for _, w := range n.waits {
		if w.bc != nil {
			if w.h <= n.last.b.h {
				select {
				case x := <-w.bc:
					n.same(n.chain[w.h], x, nil, "waiting")
				case <-time.After(10 * time.Second):
					r.Fail("node %d doesn't tell that block %d is there", n.slot, w.h)
				}
				continue
			}
			select {
			case <-w.bc:
				r.Fail("node %d tells too early that block %d is there", n.slot, w.h)
			default:
			}
		} else {
			if w.h <= n.last.b.h {
				select {
				case x := <-w.tc:
					ti, ok := x.(module.TransactionInfo)
					r.Need(ok, "node %d tells %v of a transaction", n.slot, x)
					t, err := ti.Transaction()
					r.NoErr(err, "no transaction")
					r.Need(string(t.ID()) == w.tx && ti.Block().Height() == w.h-1, "node %d tells of another transaction", n.slot)
					_, err = ti.GetReceipt()
					r.NoErr(err, "node %d tells of a transaction without a receipt", n.slot)
				case <-time.After(10 * time.Second):
					r.Fail("node %d doesn't tell the result of a transaction", n.slot)
				}
				continue
			}
			select {
			case x := <-w.tc:
				r.Fail("node %d tells the result of a transaction too early: %v", n.slot, x)
			default:
			}
		}
		rest = append(rest, w)
	}
	n.waits = rest
}

// expect to be told of a block, or of the result of a transaction of the chain.
func (n *node) expect() {
	r, g := n.l.r, n.l.g
	if g.Chance(1, 2) {
		h := n.last.b.h + int64(g.Int(-2, 3))
		if h < 0 {
			return
		}
		c, err := n.bm().WaitForBlock(h)
		r.NoErr(err, "node %d can't wait for block %d", n.slot, h)
		n.waits = append(n.waits, &wait{h: h, bc: c})
		return
	}
	b := n.chain[g.Int(max(0, len(n.chain)-2), len(n.chain)-1)]
	if b.h == 0 || len(b.txs) == 0 {
		return
	}
	t := b.txs[g.Int(0, len(b.txs)-1)]
	c, err := n.bm().WaitTransactionResult([]byte(t))
	r.NoErr(err, "node %d can't wait for a transaction of %v", n.slot, b)
	n.waits = append(n.waits, &wait{h: b.h + 1, tx: t, tc: c})
}

// finalize a block of a node.
func (n *node) finalize(s *spot) {
	r := n.l.r
	for _, h := range n.held {
		if h.s == s {
			r.NoErr(n.bm().Finalize(h.c), "node %d doesn't finalize %v", n.slot, s.b)
			n.done(s)
			return
		}
	}
	panic(kit.Broken("nothing to finalize"))
}

// honest makes a block after up, at node n, which is taken there.
func (l *lab) honest(n *node, up *blk, more func(ts int64) [][]byte) (p, b *blk, o []ballot) {
	o = l.ballots(up)
	pr := n.propose(up, l.proof(o).Bytes())
	p, err := pr.wait()
	l.r.NoErr(err, "%s fails", pr.what)
	l.r.Need(p.ts == median(o), "%s has time %d, the votes' median is %d", pr.what, p.ts, median(o))
	l.r.Need(p.h == up.h+1, "%s has height %d", pr.what, p.h)
	l.r.Need(bytes.Equal(p.bd.Kids[2].B, l.proof(o).Bytes()), "%s has other votes", pr.what)
	m := more(p.ts)
	if len(m) == 0 {
		return p, p, o
	}
	b = l.craft(p, m)
	im := n.take(b, "its completion")
	b, err = im.wait()
	l.r.NoErr(err, "%s fails", im.what)
	return p, b, o
}
