// Package sim runs a HAVAH chain inside the test process: the real service
// manager, platform, transaction handlers and state, on an in-memory database,
// with blocks and votes made up by the caller.
package sim

import (
	"encoding/json"
	"fmt"
	gonet "github.com/icon-project/goloop/network"
	"math/big"
	"os"
	"sync"
	"time"

	"context"
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/common/txlocator"
	"github.com/icon-project/goloop/common/wallet"
	"github.com/icon-project/goloop/havah"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/zzpbt/kit"
)

const (
	NID = 1
	CID = 1
)

var quiet sync.Once

func silence() {
	quiet.Do(func() {
		l := log.New()
		l.SetLevel(log.PanicLevel)
		l.SetConsoleLevel(log.PanicLevel)
		if os.Getenv("SIM_LOG") != "" {
			l.SetLevel(log.TraceLevel)
			l.SetConsoleLevel(log.TraceLevel)
		}
		log.SetGlobalLogger(l)
	})
}

// Silence stops the node's logging.
func Silence() { silence() }

type regulator struct{ count int }

func (r regulator) MaxTxCount() int                                 { return r.count }
func (regulator) OnPropose(time.Time)                               {}
func (regulator) CommitTimeout() time.Duration                      { return time.Second }
func (regulator) MinCommitTimeout() time.Duration                   { return time.Second }
func (regulator) OnTxExecution(int, time.Duration, time.Duration)   {}
func (regulator) SetBlockInterval(i time.Duration, d time.Duration) {}

type protocolHandler struct {
	module.ProtocolHandler
	n *network
}

func (protocolHandler) GetPeers() []module.PeerID                                         { return nil }
func (protocolHandler) Broadcast(module.ProtocolInfo, []byte, module.BroadcastType) error { return nil }
func (p protocolHandler) Multicast(i module.ProtocolInfo, b []byte, _ module.Role) error {
	if p.n != nil && p.n.sent != nil {
		p.n.sent(i, b)
	}
	return nil
}
func (protocolHandler) Unicast(module.ProtocolInfo, []byte, module.PeerID) error { return nil }

// network keeps the reactors of a node, so that a check can play its peers.
type network struct {
	module.NetworkManager
	reactors map[string]module.Reactor
	done     chan error
	sent     func(module.ProtocolInfo, []byte)
}

// HandleInBackground tells the end of the work through the channel.
func (p protocolHandler) HandleInBackground() (module.OnResult, error) {
	return func(_ bool, err error) { p.n.done <- err }, gonet.ErrInProgress
}

func (n *network) RegisterReactor(name string, _ module.ProtocolInfo, r module.Reactor, _ []module.ProtocolInfo, _ uint8,
	_ module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	n.reactors[name] = r
	return protocolHandler{n: n}, nil
}
func (n *network) RegisterReactorForStreams(name string, _ module.ProtocolInfo, r module.Reactor, _ []module.ProtocolInfo, _ uint8,
	_ module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	n.reactors[name] = r
	return protocolHandler{n: n}, nil
}
func (*network) UnregisterReactor(module.Reactor) error { return nil }

type chain struct {
	module.Chain
	db          db.Database
	lm          module.LocatorManager
	conc        int
	pool        int
	w           module.Wallet
	log         log.Logger
	net         *network
	size, count int
}

func (c *chain) Database() db.Database                             { return c.db }
func (c *chain) Wallet() module.Wallet                             { return c.w }
func (c *chain) NID() int                                          { return NID }
func (c *chain) CID() int                                          { return CID }
func (c *chain) NetID() int                                        { return CID }
func (c *chain) Channel() string                                   { return "" }
func (c *chain) ConcurrencyLevel() int                             { return c.conc }
func (c *chain) NormalTxPoolSize() int                             { return c.pool }
func (c *chain) PatchTxPoolSize() int                              { return c.pool }
func (c *chain) MaxBlockTxBytes() int                              { return c.size }
func (c *chain) TransactionTimeout() time.Duration                 { return 10 * time.Second }
func (c *chain) ValidateTxOnSend() bool                            { return true }
func (c *chain) PatchDecoder() module.PatchDecoder                 { return nil }
func (c *chain) Logger() log.Logger                                { return c.log }
func (c *chain) MetricContext() context.Context                    { return context.Background() }
func (c *chain) NetworkManager() module.NetworkManager             { return c.net }
func (c *chain) GetLocatorManager() (module.LocatorManager, error) { return c.lm, nil }
func (c *chain) Regulator() module.Regulator                       { return regulator{c.count} }

// Options of a node.
type Options struct {
	Concurrency int
	DB          db.Database
	Pool        int
	// BlockBytes and BlockTxs limit the transactions of a proposed block.
	BlockBytes, BlockTxs int
	// Dir is a scratch directory for contracts.
	Dir string
}

// Node is one node's service manager.
type Node struct {
	SM  module.ServiceManager
	DB  db.Database
	c   *chain
	trs module.Transition // last executed
	on  bool
}

// NewNode starts an empty node.
func NewNode(opt Options) *Node {
	silence()
	registerTx()
	if opt.DB == nil {
		opt.DB = db.NewMapDB()
	}
	if opt.Concurrency == 0 {
		opt.Concurrency = 1
	}
	if opt.Pool == 0 {
		opt.Pool = 100
	}
	if opt.BlockBytes == 0 {
		opt.BlockBytes = 1 << 20
	}
	if opt.BlockTxs == 0 {
		opt.BlockTxs = 1000
	}
	lg := log.GlobalLogger()
	lm, err := txlocator.NewManager(opt.DB, lg)
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	lm.Start()
	c := &chain{db: opt.DB, lm: lm, conc: opt.Concurrency, pool: opt.Pool, w: wallet.New(), log: lg, size: opt.BlockBytes, count: opt.BlockTxs,
		net: &network{reactors: map[string]module.Reactor{}, done: make(chan error, 1)}}
	plt, err := havah.NewPlatform(opt.Dir, CID)
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	sm, err := service.NewManager(c, c.net, nil, plt, opt.Dir)
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	return &Node{SM: sm, DB: opt.DB, c: c}
}

// Close stops the node.
func (n *Node) Close() {
	if n.on {
		n.SM.Term()
	}
	n.c.lm.Term()
}

// Start lets the node talk to its peers.
func (n *Node) Start() {
	n.SM.Start()
	n.on = true
}

// PropagateTx and ResponseTx are the messages that carry a transaction.
const (
	PropagateTx = module.ProtocolInfo(0x1001)
	ResponseTx  = module.ProtocolInfo(0x1200)
)

// Receive gives the node a message of a peer, and waits until it is done.
func (n *Node) Receive(msg module.ProtocolInfo, b []byte) error {
	r := n.c.net.reactors["transaction"]
	_, err := r.OnReceive(msg, b, peer)
	if err != gonet.ErrInProgress {
		return err
	}
	select {
	case err = <-n.c.net.done:
		return err
	case <-time.After(30 * time.Second):
		return &ErrStage{"receive", fmt.Errorf("no answer after 30 s")}
	}
}

// Sent calls f for every message to other nodes.
func (n *Node) Sent(f func(module.ProtocolInfo, []byte)) { n.c.net.sent = f }

var peer = gonet.NewPeerIDFromAddress(common.MustNewAddressFromString("hx00000000000000000000000000000000000000ee"))

// Genesis executes and stores the genesis block.
func (n *Node) Genesis(js []byte) (*Block, error) {
	gtx, err := transaction.NewGenesisTransaction(js)
	if err != nil {
		return nil, err
	}
	init, err := n.SM.CreateInitialTransition(nil, nil)
	if err != nil {
		return nil, err
	}
	n.trs = init
	return n.Run([]module.Transaction{gtx}, 0, 0, nil, true)
}

// Restart continues after a block, from the result of the one before it, as a
// node does: the last block is executed again.
func (n *Node) Restart(result []byte, vlHash []byte, b *Block, csi module.ConsensusInfo) (*Block, error) {
	if err := n.Resume(result, vlHash); err != nil {
		return nil, err
	}
	if err := n.SM.Finalize(n.trs, module.FinalizeResult); err != nil {
		return nil, err
	}
	list := n.SM.TransactionListFromSlice(b.Txs, module.BlockVersion2)
	tr, err := n.SM.CreateTransition(n.trs, list, common.NewBlockInfo(b.Height, b.TS), csi, true)
	if err != nil {
		return nil, err
	}
	if err := n.SM.Finalize(tr, module.FinalizeNormalTransaction); err != nil {
		return nil, err
	}
	if err := Execute(tr); err != nil {
		return nil, err
	}
	if err := n.SM.Finalize(tr, module.FinalizePatchTransaction|module.FinalizeResult); err != nil {
		return nil, err
	}
	n.trs = tr
	return n.block(tr, b.Txs, b.Height, b.TS)
}

// Resume continues from a stored result.
func (n *Node) Resume(result []byte, vlHash []byte) error {
	init, err := n.SM.CreateInitialTransition(result, n.SM.ValidatorListFromHash(vlHash))
	if err != nil {
		return err
	}
	n.trs = init
	return nil
}

// Locator tells where a transaction was executed, or nil.
func (n *Node) Locator(id []byte) (*module.TransactionLocator, error) { return n.c.lm.GetLocator(id) }

type callback struct {
	v, e chan error
}

func (c *callback) OnValidate(_ module.Transition, err error) { c.v <- err }
func (c *callback) OnExecute(_ module.Transition, err error)  { c.e <- err }

// ErrStage tells where a block is refused.
type ErrStage struct {
	Stage string
	Err   error
}

func (e *ErrStage) Error() string { return e.Stage + ": " + e.Err.Error() }

// Execute runs a transition to its end.
func Execute(tr module.Transition) error {
	cb := &callback{make(chan error, 1), make(chan error, 1)}
	if _, err := tr.Execute(cb); err != nil {
		return &ErrStage{"start", err}
	}
	select {
	case err := <-cb.v:
		if err != nil {
			return &ErrStage{"validate", err}
		}
	case <-time.After(60 * time.Second):
		return &ErrStage{"validate", fmt.Errorf("no answer after 60 s")}
	}
	select {
	case err := <-cb.e:
		if err != nil {
			return &ErrStage{"execute", err}
		}
	case <-time.After(60 * time.Second):
		return &ErrStage{"execute", fmt.Errorf("no answer after 60 s")}
	}
	return nil
}

// Block is an executed block.
type Block struct {
	Height, TS int64
	Tr         module.Transition
	Txs        []module.Transaction
	Receipts   []*Receipt
	Result     []byte
	Validators []string
}

// Receipt is a transaction result.
type Receipt struct {
	Status     module.Status
	To         string
	StepUsed   *big.Int
	StepPrice  *big.Int
	Cumulative *big.Int
	Score      string
	Events     []Event
	Raw        module.Receipt
}

// Event is an event log.
type Event struct {
	Addr    string
	Sig     string
	Indexed [][]byte
	Data    [][]byte
}

func (e Event) String() string { return fmt.Sprintf("%s %s %x %x", e.Addr, e.Sig, e.Indexed, e.Data) }

// Run executes a block and stores it.
func (n *Node) Run(txs []module.Transaction, height, ts int64, csi module.ConsensusInfo, validated bool) (*Block, error) {
	b, err := n.Try(txs, height, ts, csi, validated)
	if err != nil {
		return nil, err
	}
	return b, n.Commit(b)
}

// Try executes a block on top of the last stored one.
func (n *Node) Try(txs []module.Transaction, height, ts int64, csi module.ConsensusInfo, validated bool) (*Block, error) {
	return n.TryOn(n.trs, txs, height, ts, csi, validated)
}

// TryOn executes a block on top of an executed one.
func (n *Node) TryOn(parent module.Transition, txs []module.Transaction, height, ts int64, csi module.ConsensusInfo, validated bool) (*Block, error) {
	list := n.SM.TransactionListFromSlice(txs, module.BlockVersion2)
	tr, err := n.SM.CreateTransition(parent, list, common.NewBlockInfo(height, ts), csi, validated)
	if err != nil {
		return nil, &ErrStage{"create", err}
	}
	if err := Execute(tr); err != nil {
		return nil, err
	}
	return n.block(tr, txs, height, ts)
}

// Commit stores a block.
func (n *Node) Commit(b *Block) error {
	if err := n.SM.Finalize(b.Tr, module.FinalizeNormalTransaction|module.FinalizePatchTransaction); err != nil {
		return &ErrStage{"finalize", err}
	}
	if err := n.SM.Finalize(b.Tr, module.FinalizeResult); err != nil {
		return &ErrStage{"finalize result", err}
	}
	n.trs = b.Tr
	return nil
}

func (n *Node) block(tr module.Transition, txs []module.Transaction, height, ts int64) (*Block, error) {
	b := &Block{Height: height, TS: ts, Tr: tr, Txs: txs, Result: tr.Result()}
	rl := tr.NormalReceipts()
	for i := range txs {
		r, err := rl.Get(i)
		if err != nil {
			return nil, &ErrStage{"receipt", err}
		}
		rc, err := ReceiptOf(r)
		if err != nil {
			return nil, &ErrStage{"receipt", err}
		}
		b.Receipts = append(b.Receipts, rc)
	}
	b.Validators = Addresses(tr.NextValidators())
	return b, nil
}

// Addresses of a validator list.
func Addresses(vl module.ValidatorList) []string {
	r := []string{}
	for i := 0; vl != nil && i < vl.Len(); i++ {
		v, _ := vl.Get(i)
		r = append(r, v.Address().String())
	}
	return r
}

func addr(a module.Address) string {
	if a == nil {
		return ""
	}
	if p, ok := a.(*common.Address); ok && p == nil {
		return ""
	}
	return a.String()
}

// ReceiptOf reads a receipt.
func ReceiptOf(r module.Receipt) (*Receipt, error) {
	rc := &Receipt{Status: r.Status(), StepUsed: r.StepUsed(), StepPrice: r.StepPrice(),
		Cumulative: r.CumulativeStepUsed(), Raw: r}
	rc.To, rc.Score = addr(r.To()), addr(r.SCOREAddress())
	for it := r.EventLogIterator(); it.Has(); {
		l, err := it.Get()
		if err != nil {
			return nil, err
		}
		e := Event{Addr: l.Address().String()}
		ix := l.Indexed()
		if len(ix) > 0 {
			e.Sig = string(ix[0])
			e.Indexed = ix[1:]
		}
		e.Data = l.Data()
		rc.Events = append(rc.Events, e)
		if err := it.Next(); err != nil {
			return nil, err
		}
	}
	return rc, nil
}

// Base returns the base transaction the node puts first in a block, or nil.
func (n *Node) Base(height, ts int64, csi module.ConsensusInfo) (module.Transaction, error) {
	tr, err := n.SM.ProposeTransition(n.trs, common.NewBlockInfo(height, ts), csi)
	if err != nil {
		return nil, err
	}
	tx, err := tr.NormalTransactions().Get(0)
	if err != nil {
		return nil, nil
	}
	return tx, nil
}

// Propose makes a block on top of the last stored one.
func (n *Node) Propose(height, ts int64, csi module.ConsensusInfo) (*Block, error) {
	tr, err := n.SM.ProposeTransition(n.trs, common.NewBlockInfo(height, ts), csi)
	if err != nil {
		return nil, &ErrStage{"propose", err}
	}
	if err := Execute(tr); err != nil {
		return nil, err
	}
	var txs []module.Transaction
	for it := tr.NormalTransactions().Iterator(); it.Has(); _ = it.Next() {
		tx, _, err := it.Get()
		if err != nil {
			return nil, &ErrStage{"propose", err}
		}
		txs = append(txs, tx)
	}
	return n.block(tr, txs, height, ts)
}

// Last is the last stored transition.
func (n *Node) Last() module.Transition { return n.trs }

// Query calls a read-only method on the last state, for the given height.
func (n *Node) Query(to, method string, params any, height, ts int64) (any, error) {
	return n.QueryAt(n.trs.Result(), n.trs.NextValidators(), to, method, params, height, ts)
}

// QueryAt calls a read-only method on a given result.
func (n *Node) QueryAt(result []byte, vl module.ValidatorList, to, method string, params any, height, ts int64) (any, error) {
	data := map[string]any{"method": method}
	if params != nil {
		data["params"] = params
	}
	js, err := json.Marshal(map[string]any{"to": to, "dataType": "call", "data": data})
	if err != nil {
		panic(err)
	}
	return n.SM.Call(result, vl, js, common.NewBlockInfo(height, ts))
}

// Balance of an account.
func (n *Node) Balance(addr string) *big.Int {
	b, err := n.SM.GetBalance(n.trs.Result(), common.MustNewAddressFromString(addr))
	if err != nil && addr[0] == 'c' {
		// the address of a contract that is not deployed
		b, err = n.SM.GetBalance(n.trs.Result(), common.MustNewAddressFromString("h"+addr[1:]))
	}
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	return b
}

// Supply is the total supply.
func (n *Node) Supply() *big.Int {
	b, err := n.SM.GetTotalSupply(n.trs.Result())
	if err != nil {
		panic(kit.Broken(err.Error()))
	}
	return b
}

// CSI makes consensus information: who voted among the given validators.
func CSI(proposer string, voters module.ValidatorList, voted []bool) module.ConsensusInfo {
	return common.NewConsensusInfo(common.MustNewAddressFromString(proposer), voters, voted)
}

// Reparse turns transactions into bytes and back on another node.
func (n *Node) Reparse(txs []module.Transaction) ([]module.Transaction, error) {
	r := make([]module.Transaction, len(txs))
	for i, tx := range txs {
		t, err := n.SM.TransactionFromBytes(tx.Bytes(), module.BlockVersion2)
		if err != nil {
			return nil, err
		}
		r[i] = t
	}
	return r, nil
}

// Hex writes an integer as the API does.
func Hex(v *big.Int) string { return (&common.HexInt{Int: *v}).String() }

// Num writes a small integer as the API does.
func Num(v int64) string { return Hex(big.NewInt(v)) }
