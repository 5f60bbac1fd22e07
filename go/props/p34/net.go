package p34

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/consensus/fastsync"
	"github.com/icon-project/goloop/module"
)

// id of a node.
type id string

func (i id) Bytes() []byte              { return []byte(i) }
func (i id) Equal(o module.PeerID) bool { return o != nil && bytes.Equal(i.Bytes(), o.Bytes()) }
func (i id) String() string             { return string(i) }

type netErr struct{ temporary bool }

func (e netErr) Error() string   { return fmt.Sprintf("network error (temporary: %v)", e.temporary) }
func (e netErr) Temporary() bool { return e.temporary }

// net connects nodes: messages of a link arrive in order, after a delay.
type net struct {
	mu    sync.Mutex
	nodes []*node
	links map[[2]id]int // numbers of connections
	last  map[[2]id]time.Time
	times map[[2]id]int // number of messages of a link
	full  map[[2]id]int // queue overflows in a row
	conns int           // connections made so far
	seed  uint64
	hi    int // longest delay in milliseconds
	busy  int // percent of queue overflows
}

type node struct {
	module.NetworkManager
	n  *net
	id id
	r  module.Reactor
}

func (n *net) luck(k [2]id, m int) int {
	z := n.seed + uint64(n.times[k])*0x9e3779b97f4a7c15
	for _, x := range string(k[0] + ">" + k[1]) {
		z = (z ^ uint64(x)) * 0x100000001b3
	}
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	n.times[k]++
	return int(z % uint64(max(m, 1)))
}

func (n *net) add(i id, r module.Reactor) *node {
	x := &node{n: n, id: i, r: r}
	n.nodes = append(n.nodes, x)
	return x
}

func (n *net) find(i id) *node {
	for _, x := range n.nodes {
		if x.id == i {
			return x
		}
	}
	return nil
}

// join or part two nodes.
func (n *net) join(a, b id, on bool) {
	n.mu.Lock()
	was := n.links[[2]id{a, b}] > 0
	now := 0
	if on {
		n.conns++
		now = n.conns
	}
	if on != was {
		n.links[[2]id{a, b}], n.links[[2]id{b, a}] = now, now
	}
	x, y := n.find(a), n.find(b)
	n.mu.Unlock()
	if was == on || a == b {
		return
	}
	for _, p := range [][2]*node{{x, y}, {y, x}} {
		if p[0].r == nil {
			continue
		}
		if on {
			p[0].r.OnJoin(p[1].id)
		} else {
			p[0].r.OnLeave(p[1].id)
		}
	}
}

func (x *node) GetPeers() []module.PeerID {
	x.n.mu.Lock()
	defer x.n.mu.Unlock()
	l := []module.PeerID{}
	for _, y := range x.n.nodes {
		if x.n.links[[2]id{x.id, y.id}] > 0 {
			l = append(l, y.id)
		}
	}
	return l
}

func (x *node) RegisterReactorForStreams(_ string, _ module.ProtocolInfo, r module.Reactor, _ []module.ProtocolInfo, _ uint8,
	_ module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	x.r = r
	return x, nil
}

func (x *node) UnregisterReactor(module.Reactor) error {
	x.r = nil
	return nil
}

func (x *node) Broadcast(module.ProtocolInfo, []byte, module.BroadcastType) error { return nil }
func (x *node) Multicast(module.ProtocolInfo, []byte, module.Role) error          { return nil }
func (x *node) HandleInBackground() (module.OnResult, error)                      { return func(bool, error) {}, nil }

// Unicast accepts all cancellations: the client waits with a lock held for
// those, which stops the virtual clock.
func (x *node) Unicast(pi module.ProtocolInfo, b []byte, to module.PeerID) error {
	n := x.n
	n.mu.Lock()
	defer n.mu.Unlock()
	k := [2]id{x.id, to.(id)}
	conn := n.links[k]
	if conn == 0 {
		return netErr{false}
	}
	if pi != fastsync.ProtoCancelAllBlockRequests && n.full[k] < 3 && n.luck(k, 100) < n.busy {
		n.full[k]++
		return netErr{true}
	}
	n.full[k] = 0
	at := time.Now().Add(time.Duration(n.luck(k, n.hi*1000+1)) * time.Microsecond)
	if m := n.last[k].Add(time.Microsecond); at.Before(m) {
		at = m
	}
	n.last[k] = at
	b = append([]byte{}, b...)
	time.AfterFunc(time.Until(at), func() {
		n.mu.Lock()
		ok := n.links[k] == conn
		y := n.find(k[1])
		n.mu.Unlock()
		if ok && y != nil && y.r != nil {
			_, _ = y.r.OnReceive(pi, b, x.id)
		}
	})
	return nil
}

// blk is a block: its height and its bytes.
type blk struct {
	module.Block
	h int64
	b []byte
}

func (b *blk) Height() int64                   { return b.h }
func (b *blk) Hash() []byte                    { return b.b }
func (b *blk) MarshalHeader(w io.Writer) error { _, err := w.Write(b.b[:9]); return err }
func (b *blk) MarshalBody(w io.Writer) error   { _, err := w.Write(b.b[9:]); return err }

// chain has blocks with heights of 0 to len-1, and their proofs.
type chain struct {
	module.BlockManager
	blocks, proofs [][]byte
	top            int64 // some nodes have less
}

func (c *chain) GetBlockByHeight(h int64) (module.Block, error) {
	if h < 0 || h > c.top {
		return nil, errors.NotFoundError.New("no block")
	}
	return &blk{h: h, b: c.blocks[h]}, nil
}

func (c *chain) GetBlockProof(h int64, _ int32) ([]byte, error) {
	if h < 0 || h > c.top {
		return nil, errors.NotFoundError.New("no proof")
	}
	return c.proofs[h], nil
}

func (c *chain) NewBlockDataFromReader(r io.Reader) (module.BlockData, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return parse(b)
}

func parse(b []byte) (module.BlockData, error) {
	if len(b) < 9 || b[0] != 'B' {
		return nil, errors.New("no block")
	}
	h := int64(0)
	for _, x := range b[1:9] {
		h = h<<8 | int64(x)
	}
	return &blk{h: h, b: b}, nil
}

func data(h int64, n int, fill byte) []byte {
	b := make([]byte, 9+n)
	b[0] = 'B'
	for i := 0; i < 8; i++ {
		b[1+i] = byte(h >> (8 * (7 - i)))
	}
	for i := 9; i < len(b); i++ {
		b[i] = fill + byte(i)
	}
	return b
}
