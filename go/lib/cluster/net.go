package cluster

import (
	"sort"
	"sync"
	"time"

	"github.com/icon-project/goloop/module"
	gonet "github.com/icon-project/goloop/network"
)

// Net is the virtual network: messages of a link arrive in order, after a
// delay, or not at all.
type Net struct {
	mu    sync.Mutex
	joins sync.Mutex // held while nodes are told who comes and goes
	ports []*port    // by slot; nil or dead while the node is down
	last  map[[2]int]time.Time
	seed  uint64
	count map[[3]int]int
	cut   map[[2]int]bool
	Delay [2]int // milliseconds
	Loss  int    // percent
	Spy   func(slot int, mpi, pi module.ProtocolInfo, b []byte)
	Drop  func(from, to int, mpi, pi module.ProtocolInfo, b []byte, luck int) bool
	Sent  int
}

// luck of the next message of a kind on a link: it depends on what was sent
// there before, and on nothing else that happens at the same time.
func (n *Net) luck(from, to int, pi module.ProtocolInfo) *rand {
	k := [3]int{from, to, int(pi.Uint16())}
	n.count[k]++
	r := &rand{n.seed ^ uint64(from*64+to)<<32 ^ uint64(pi.Uint16())<<40 ^ uint64(n.count[k])}
	r.n(1)
	return r
}

type rand struct{ s uint64 }

func (r *rand) n(n int) int {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	if n <= 0 {
		return 0
	}
	return int(z % uint64(n))
}

type handler struct {
	p    *port
	name string
	pi   module.ProtocolInfo
	r    module.Reactor
	prio uint8
}

// port is the network manager of one life of a node.
type port struct {
	module.NetworkManager
	net      *Net
	slot     int
	id, addr module.PeerID
	l        *life
	handlers []*handler
	roles    map[module.Role][]module.PeerID
	gone     bool
}

func (n *Net) up(a, b int) bool {
	if a == b || n.cut[[2]int{a, b}] {
		return false
	}
	p, q := n.ports[a], n.ports[b]
	return p != nil && q != nil && p.l.alive() && q.l.alive()
}

// peers of a slot, called with the lock held.
func (n *Net) peers(s int) []*port {
	var l []*port
	for i, p := range n.ports {
		if p != nil && n.up(s, i) {
			l = append(l, p)
		}
	}
	return l
}

func (n *Net) tell(s int, join bool, ids ...module.PeerID) {
	n.mu.Lock()
	p := n.ports[s]
	var hs []*handler
	if p != nil && p.l.alive() {
		hs = append(hs, p.handlers...)
	}
	n.mu.Unlock()
	for _, h := range hs {
		for _, id := range ids {
			if join {
				h.r.OnJoin(id)
			} else {
				h.r.OnLeave(id)
			}
		}
	}
}

// Cut or mend the links between two groups of nodes.
func (n *Net) Cut(a, b int, cut bool) {
	n.joins.Lock()
	defer n.joins.Unlock()
	n.mu.Lock()
	was := n.cut[[2]int{a, b}]
	n.cut[[2]int{a, b}], n.cut[[2]int{b, a}] = cut, cut
	p, q := n.ports[a], n.ports[b]
	n.mu.Unlock()
	if was == cut || p == nil || q == nil || !p.l.alive() || !q.l.alive() {
		return
	}
	n.tell(a, !cut, q.id)
	n.tell(b, !cut, p.id)
}

// attach makes the life reachable, detach tells the others that it is gone.
func (n *Net) attach(p *port) {
	n.joins.Lock()
	defer n.joins.Unlock()
	n.mu.Lock()
	old := n.ports[p.slot]
	n.mu.Unlock()
	if old != nil {
		n.leave(old)
	}
	n.mu.Lock()
	n.ports[p.slot] = p
	l := n.peers(p.slot)
	n.mu.Unlock()
	for _, q := range l {
		n.tell(q.slot, true, p.id)
		n.tell(p.slot, true, q.id)
	}
}

func (n *Net) detach(p *port) {
	n.joins.Lock()
	defer n.joins.Unlock()
	n.leave(p)
}

func (n *Net) leave(p *port) {
	n.mu.Lock()
	if p.gone || n.ports[p.slot] != p {
		n.mu.Unlock()
		return
	}
	p.gone = true
	n.ports[p.slot] = nil
	var l []int
	for i, q := range n.ports {
		if q != nil && q.l.alive() && !n.cut[[2]int{p.slot, i}] {
			l = append(l, i)
		}
	}
	n.mu.Unlock()
	for _, i := range l {
		n.tell(i, false, p.id)
	}
}

func (h *handler) send(to func(p *port) bool, pi module.ProtocolInfo, b []byte) error {
	p, n := h.p, h.p.net
	if !p.l.op("send") {
		return nil
	}
	b = append([]byte{}, b...)
	if n.Spy != nil {
		n.Spy(p.slot, h.pi, pi, b)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, q := range n.peers(p.slot) {
		if !to(q) {
			continue
		}
		luck := n.luck(p.slot, q.slot, h.pi)
		if n.Loss > 0 && luck.n(100) < n.Loss {
			continue
		}
		if n.Drop != nil && n.Drop(p.slot, q.slot, h.pi, pi, b, luck.n(100)) {
			continue
		}
		n.Sent++
		d := time.Duration(n.Delay[0]*1000+luck.n((n.Delay[1]-n.Delay[0])*1000+1)) * time.Microsecond
		k := [2]int{p.slot, q.slot}
		at := time.Now().Add(d)
		if m := n.last[k].Add(time.Microsecond); at.Before(m) {
			at = m
		}
		n.last[k] = at
		q := q
		time.AfterFunc(time.Until(at), func() {
			n.mu.Lock()
			ok := n.up(p.slot, q.slot) && n.ports[q.slot] == q
			var r module.Reactor
			for _, o := range q.handlers {
				if o.pi == h.pi {
					r = o.r
				}
			}
			n.mu.Unlock()
			if ok && r != nil {
				_, _ = r.OnReceive(pi, append([]byte{}, b...), p.id)
			}
		})
	}
	return nil
}

// Inject makes a node receive a message now, as if another one had sent it.
func (n *Net) Inject(from, to int, mpi, pi module.ProtocolInfo, b []byte) {
	n.mu.Lock()
	p, q := n.ports[from], n.ports[to]
	var r module.Reactor
	if p != nil && q != nil && q.l.alive() && from != to {
		for _, o := range q.handlers {
			if o.pi == mpi {
				r = o.r
			}
		}
	}
	n.mu.Unlock()
	if r != nil {
		_, _ = r.OnReceive(pi, b, p.id)
	}
}

func (h *handler) Broadcast(pi module.ProtocolInfo, b []byte, _ module.BroadcastType) error {
	return h.send(func(*port) bool { return true }, pi, b)
}

func (h *handler) Multicast(pi module.ProtocolInfo, b []byte, role module.Role) error {
	n := h.p.net
	n.mu.Lock()
	l := append([]module.PeerID{}, h.p.roles[role]...)
	n.mu.Unlock()
	return h.send(func(q *port) bool {
		for _, i := range l {
			if i.Equal(q.addr) {
				return true
			}
		}
		return false
	}, pi, b)
}

func (h *handler) Unicast(pi module.ProtocolInfo, b []byte, id module.PeerID) error {
	return h.send(func(q *port) bool { return q.id.Equal(id) }, pi, b)
}

func (h *handler) GetPeers() []module.PeerID { return h.p.GetPeers() }

func (h *handler) HandleInBackground() (module.OnResult, error) { return func(bool, error) {}, nil }

func (p *port) Start() error { return nil }
func (p *port) Term()        {}

func (p *port) GetPeers() []module.PeerID {
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	l := []module.PeerID{}
	for _, q := range p.net.peers(p.slot) {
		l = append(l, q.id)
	}
	return l
}

func (p *port) RegisterReactor(name string, pi module.ProtocolInfo, r module.Reactor, _ []module.ProtocolInfo, prio uint8,
	_ module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	h := &handler{p, name, pi, r, prio}
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	p.handlers = append(p.handlers, h)
	sort.SliceStable(p.handlers, func(i, j int) bool { return p.handlers[i].prio < p.handlers[j].prio })
	return h, nil
}

func (p *port) RegisterReactorForStreams(name string, pi module.ProtocolInfo, r module.Reactor, l []module.ProtocolInfo, prio uint8,
	pol module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	return p.RegisterReactor(name, pi, r, l, prio, pol)
}

func (p *port) UnregisterReactor(r module.Reactor) error {
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	for i, h := range p.handlers {
		if h.r == r {
			p.handlers = append(append([]*handler{}, p.handlers[:i]...), p.handlers[i+1:]...)
			break
		}
	}
	return nil
}

func (p *port) SetRole(_ int64, role module.Role, ids ...module.PeerID) {
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	p.roles[role] = append([]module.PeerID{}, ids...)
}

func (p *port) GetPeersByRole(role module.Role) []module.PeerID {
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	l := []module.PeerID{}
	for _, q := range p.net.peers(p.slot) {
		for _, i := range p.roles[role] {
			if i.Equal(q.addr) {
				l = append(l, q.id)
			}
		}
	}
	return l
}

func (p *port) HasRole(role module.Role, id module.PeerID) bool {
	p.net.mu.Lock()
	defer p.net.mu.Unlock()
	for _, i := range p.roles[role] {
		if i.Equal(id) {
			return true
		}
	}
	return false
}

var _ = gonet.NewPeerIDFromAddress
