package cluster

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/chain/base"
	"github.com/icon-project/goloop/chain/gs"
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/common/txlocator"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/havah"
	"github.com/icon-project/goloop/module"
	gonet "github.com/icon-project/goloop/network"
	"github.com/icon-project/goloop/service"

	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

type regulator struct{ every time.Duration }

func (regulator) MaxTxCount() int                                   { return 100 }
func (regulator) OnPropose(time.Time)                               {}
func (r regulator) CommitTimeout() time.Duration                    { return r.every }
func (r regulator) MinCommitTimeout() time.Duration                 { return r.every }
func (regulator) OnTxExecution(int, time.Duration, time.Duration)   {}
func (regulator) SetBlockInterval(i time.Duration, d time.Duration) {}

type chain struct {
	module.Chain
	db    db.Database
	lm    module.LocatorManager
	w     module.Wallet
	log   log.Logger
	net   *port
	gs    module.GenesisStorage
	every time.Duration
	cid   int
	plt   base.Platform
	sm    module.ServiceManager
	bm    module.BlockManager
	cs    module.Consensus
}

func (c *chain) Database() db.Database                             { return c.db }
func (c *chain) Wallet() module.Wallet                             { return c.w }
func (c *chain) NID() int                                          { return sim.NID }
func (c *chain) CID() int                                          { return c.cid }
func (c *chain) NetID() int                                        { return sim.CID }
func (c *chain) Channel() string                                   { return "" }
func (c *chain) ConcurrencyLevel() int                             { return 1 }
func (c *chain) NormalTxPoolSize() int                             { return 100 }
func (c *chain) PatchTxPoolSize() int                              { return 100 }
func (c *chain) MaxBlockTxBytes() int                              { return 1 << 20 }
func (c *chain) TransactionTimeout() time.Duration                 { return 5 * time.Second }
func (c *chain) DefaultWaitTimeout() time.Duration                 { return time.Second }
func (c *chain) MaxWaitTimeout() time.Duration                     { return time.Second }
func (c *chain) ValidateTxOnSend() bool                            { return true }
func (c *chain) ChildrenLimit() int                                { return -1 }
func (c *chain) NephewsLimit() int                                 { return -1 }
func (c *chain) Genesis() []byte                                   { return c.gs.Genesis() }
func (c *chain) GenesisStorage() module.GenesisStorage             { return c.gs }
func (c *chain) PatchDecoder() module.PatchDecoder                 { return consensus.DecodePatch }
func (c *chain) Logger() log.Logger                                { return c.log }
func (c *chain) MetricContext() context.Context                    { return context.Background() }
func (c *chain) NetworkManager() module.NetworkManager             { return c.net }
func (c *chain) BlockManager() module.BlockManager                 { return c.bm }
func (c *chain) ServiceManager() module.ServiceManager             { return c.sm }
func (c *chain) Consensus() module.Consensus                       { return c.cs }
func (c *chain) GetLocatorManager() (module.LocatorManager, error) { return c.lm, nil }
func (c *chain) Regulator() module.Regulator                       { return regulator{c.every} }
func (c *chain) IsStarted() bool                                   { return true }
func (c *chain) IsStopped() bool                                   { return false }
func (c *chain) PlatformName() string                              { return "havah" }
func (c *chain) DoDBTask(f func(db.Database))                      { f(c.db) }
func (c *chain) CommitVoteSetDecoder() module.CommitVoteSetDecoder {
	if d := c.plt.CommitVoteSetDecoder(); d != nil {
		return d
	}
	return consensus.NewCommitVoteSetFromBytes
}
func (c *chain) WalletFor(dsa string) module.BaseWallet {
	if dsa == "ecdsa/secp256k1" {
		return c.w
	}
	return nil
}

// Config of a cluster.
type Config struct {
	Genesis []byte
	Wallets []module.Wallet // by slot; the same wallet in two slots makes twins
	Every   time.Duration   // block interval
	Quiet   bool            // nobody takes part in the consensus
	Seed    uint64
}

// Cluster is a set of nodes.
type Cluster struct {
	Net   *Net
	cfg   Config
	dir   string
	disks []*disk
	lives []*Life
	mu    sync.Mutex
	all   []*Life
	n     int
	rnd   *rand
}

// Life is one run of a node.
type Life struct {
	Slot int
	c    *chain
	l    *life
	p    *port
}

func (f *Life) Alive() bool               { return f.l.alive() }
func (f *Life) BM() module.BlockManager   { return f.c.bm }
func (f *Life) SM() module.ServiceManager { return f.c.sm }
func (f *Life) CS() module.Consensus      { return f.c.cs }

// Locator of a transaction, or nil.
func (f *Life) Locator(id []byte) (*module.TransactionLocator, error) { return f.c.lm.GetLocator(id) }

// Ended tells before which effects the nodes crashed.
func (c *Cluster) Ended() []string {
	l := []string{}
	for _, f := range c.all {
		f.l.mu.Lock()
		if f.l.dead {
			l = append(l, f.l.after)
		}
		f.l.mu.Unlock()
	}
	return l
}

// New makes a cluster of stopped nodes; dir is a scratch directory.
func New(dir string, cfg Config) *Cluster {
	sim.Silence()
	sim.Register()
	c := &Cluster{cfg: cfg, dir: dir, lives: make([]*Life, len(cfg.Wallets)), rnd: &rand{cfg.Seed + 1}}
	c.Net = &Net{ports: make([]*port, len(cfg.Wallets)), last: map[[2]int]time.Time{}, seed: cfg.Seed, count: map[[3]int]int{}, cut: map[[2]int]bool{}, Delay: [2]int{1, 20}}
	for range cfg.Wallets {
		c.disks = append(c.disks, newDisk(c.sub()))
	}
	return c
}

func (c *Cluster) sub() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return filepath.Join(c.dir, fmt.Sprint("d", c.n))
}

// Size is the number of slots.
func (c *Cluster) Size() int { return len(c.lives) }

// Wallet of a slot.
func (c *Cluster) Wallet(slot int) module.Wallet { return c.cfg.Wallets[slot] }

// Life is the running node of a slot, or nil.
func (c *Cluster) Life(slot int) *Life {
	f := c.lives[slot]
	if f == nil || !f.l.alive() {
		return nil
	}
	return f
}

// Start runs a node; it crashes before its effect number at, unless at is 0.
func (c *Cluster) Start(slot, at int) error {
	if c.Life(slot) != nil {
		panic(kit.Broken("the node runs already"))
	}
	w := c.cfg.Wallets[slot]
	l := &life{d: c.disks[slot], at: at, ops: map[string]int{}, next: c.sub, tear: func(n int64) int64 { return int64(c.rnd.n(int(n) + 1)) }}
	addr := gonet.NewPeerIDFromAddress(w.Address())
	id := addr
	for i := 0; i < slot; i++ {
		if c.cfg.Wallets[i].Address().Equal(w.Address()) {
			id = gonet.NewPeerIDFromAddress(common.MustNewAddressFromString(fmt.Sprintf("hx%040x", 0xee00+slot)))
		}
	}
	p := &port{net: c.Net, slot: slot, id: id, addr: addr, l: l, roles: map[module.Role][]module.PeerID{}}
	lg := log.GlobalLogger()
	d := database{l}
	lm, err := txlocator.NewManager(d, lg)
	if err != nil {
		return err
	}
	lm.Start()
	ch := &chain{db: d, lm: lm, w: w, log: lg, net: p, gs: gs.NewFromTx(c.cfg.Genesis), every: c.cfg.Every}
	if ch.cid, err = ch.gs.CID(); err != nil {
		return err
	}
	f := &Life{slot, ch, l, p}
	c.lives[slot] = f
	c.all = append(c.all, f)
	work := c.sub()
	if err := os.MkdirAll(work, 0700); err != nil {
		return err
	}
	if ch.plt, err = havah.NewPlatform(work, ch.cid); err != nil {
		return err
	}
	if ch.sm, err = service.NewManager(ch, p, nil, ch.plt, work); err != nil {
		return err
	}
	if ch.bm, err = block.NewManager(ch, nil, ch.plt.NewBlockHandlers(ch)); err != nil {
		return err
	}
	if c.cfg.Quiet {
		ch.sm.Start()
		return nil
	}
	ch.cs = consensus.New(ch, l.d.dir, wal{l}, nil, nil, nil, 0)
	l.down = func() { go c.Net.detach(p) }
	// nothing happens at the very same time on two nodes, so that runs repeat
	time.Sleep(time.Duration(100+c.rnd.n(400)) * time.Microsecond)
	ch.sm.Start()
	time.Sleep(time.Duration(100+c.rnd.n(400)) * time.Microsecond)
	if err = ch.cs.Start(); err != nil {
		return err
	}
	time.Sleep(time.Duration(100+c.rnd.n(400)) * time.Microsecond)
	if l.alive() {
		c.Net.attach(p)
	}
	return nil
}

// Crash stops a node at once.
func (c *Cluster) Crash(slot int) {
	if f := c.Life(slot); f != nil {
		f.l.crash()
	}
}

// CrashIn makes the node crash after n more effects.
func (c *Cluster) CrashIn(slot, n int) {
	if f := c.Life(slot); f != nil {
		f.l.mu.Lock()
		f.l.at = f.l.n + n + 1
		f.l.mu.Unlock()
	}
}

// Reap ends what is left of crashed nodes, and reports which slots are down.
func (c *Cluster) Reap() []int {
	var l []int
	for s, f := range c.lives {
		if f != nil && f.l.alive() {
			continue
		}
		l = append(l, s)
		if f != nil {
			c.disks[s] = f.l.left
			c.lives[s] = nil
			f.term()
		}
	}
	return l
}

func (f *Life) term() {
	ch := f.c
	if ch.cs != nil {
		ch.cs.Term()
	}
	if ch.bm != nil {
		ch.bm.Term()
	}
	if ch.sm != nil {
		ch.sm.Term()
	}
	ch.lm.Term()
}

// Stop ends a node in order.
func (c *Cluster) Stop(slot int) {
	if f := c.Life(slot); f != nil {
		f.term()
		f.l.crash()
		c.disks[slot] = f.l.left
		c.lives[slot] = nil
	}
}

// Close ends all nodes.
func (c *Cluster) Close() {
	for s, f := range c.lives {
		if f != nil {
			c.Crash(s)
		}
	}
	c.Reap()
}
