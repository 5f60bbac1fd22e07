// Package hmodel is a reference model of HAVAH's platform: coin issue, fees,
// planets and their rewards, validators. It knows nothing of the node's code;
// it is written from the documented rules and keeps plain maps and lists.
package hmodel

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/icon-project/goloop/zzpbt/ref"
)

// Well-known accounts.
const (
	System     = "cx0000000000000000000000000000000000000000"
	Governance = "cx0000000000000000000000000000000000000001"
	Treasury   = "hx1000000000000000000000000000000000000000"
	Public     = "hx3000000000000000000000000000000000000000"
	SusFund    = "cx4000000000000000000000000000000000000000"
	Hoover     = "hx6000000000000000000000000000000000000000"
	Eco        = "cx7000000000000000000000000000000000000000"
	PlanetNFT  = "cx8000000000000000000000000000000000000000"
	Service    = "hx9000000000000000000000000000000000000000"
)

// Planet is a registered planet.
type Planet struct {
	Private, Company bool
	Owner            string
	USDT, Price      *big.Int
	Height           int64
}

// Reward is what a planet has been offered.
type Reward struct {
	Total, Current *big.Int
	LastTN         int64
}

// Validator is a registered validator.
type Validator struct {
	Owner, Node  string
	Key          []byte
	Main         bool
	Name, URL    string
	Disabled     bool
	Disqualified bool
	NonVotes     int64
	Enables      int
}

// NetStatus is the network status of the running term.
type NetStatus struct {
	Decentralized          bool
	Period, Allowance, AVC int64
}

// M is the whole state.
type M struct {
	Rev       int
	StepPrice *big.Int
	Bal       map[string]*big.Int
	Supply    *big.Int

	IssueStart, TermPeriod, Cycle, Limit int64
	IssueAmount, HooverBudget            *big.Int
	USDT, ActiveUSDT                     *big.Int
	Managers                             []string
	Planets                              map[int64]Planet
	Rewards                              map[int64]Reward
	Active, Working                      int64
	RewardTotal, RewardRemain            *big.Int
	EcoReward, Lost                      *big.Int
	Num, Den                             int64

	Period, Allowance, AVC int64
	NS                     NetStatus
	Vals                   map[string]Validator
	NodeOwner              map[string]string
	Main, Sub, Disq        []string
	SubIndex               int
	Set                    []string
	Keys                   map[string]bool
	DSA                    bool
	NTypes                 []string
	NetCount               int64

	ev  []string
	cut int // events of a failed transaction are dropped back to here
}

// Config of the genesis block.
type Config struct {
	Rev                int
	StepPrice          int64
	TermPeriod         int64
	Cycle, Limit       int64
	Issue, Budget      *big.Int
	USDT               *big.Int
	Accounts           map[string]*big.Int
	Validators         []string
	NoCycle, NoDefault bool
}

// New makes the state after the genesis block.
func New(c Config) *M {
	m := &M{Rev: c.Rev, StepPrice: big.NewInt(c.StepPrice), Bal: map[string]*big.Int{}, Supply: new(big.Int),
		TermPeriod: c.TermPeriod, Cycle: c.Cycle, Limit: c.Limit, IssueAmount: c.Issue, HooverBudget: c.Budget,
		USDT: c.USDT, ActiveUSDT: new(big.Int), Planets: map[int64]Planet{}, Rewards: map[int64]Reward{},
		RewardTotal: new(big.Int), RewardRemain: new(big.Int), EcoReward: new(big.Int), Lost: new(big.Int),
		Num: 0, Den: 24, Period: 30, Allowance: 20, Vals: map[string]Validator{}, NodeOwner: map[string]string{},
		Keys: map[string]bool{}}
	for a, b := range c.Accounts {
		m.Bal[a] = b
		m.Supply = new(big.Int).Add(m.Supply, b)
	}
	m.Set = append(m.Set, c.Validators...)
	return m
}

// Clone copies the state. Big integers are never changed in place.
func (m *M) Clone() *M {
	c := *m
	c.Bal = cp(m.Bal)
	c.Planets = cp(m.Planets)
	c.Rewards = cp(m.Rewards)
	c.Vals = cp(m.Vals)
	c.NodeOwner = cp(m.NodeOwner)
	c.Keys = cp(m.Keys)
	for _, l := range []*[]string{&c.Managers, &c.Main, &c.Sub, &c.Disq, &c.Set, &c.NTypes, &c.ev} {
		*l = append([]string(nil), *l...)
	}
	return &c
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Balance of an account.
func (m *M) Balance(a string) *big.Int {
	if b := m.Bal[a]; b != nil {
		return b
	}
	return new(big.Int)
}

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

// frac is floor(a*n/d).
func frac(a *big.Int, n, d int64) *big.Int {
	r := new(big.Int).Mul(a, big.NewInt(n))
	return r.Quo(r, big.NewInt(d))
}

// Ev writes an event down: signature, indexed arguments | other arguments.
func Ev(sig string, indexed, data []any) string {
	s := make([]string, 0, len(indexed)+len(data)+1)
	for _, a := range indexed {
		s = append(s, hex.EncodeToString(Arg(a)))
	}
	s = append(s, "|")
	for _, a := range data {
		s = append(s, hex.EncodeToString(Arg(a)))
	}
	return sig + " " + strings.Join(s, " ")
}

// Arg encodes an event argument.
func Arg(a any) []byte {
	switch v := a.(type) {
	case int:
		return ref.Int(big.NewInt(int64(v)))
	case int64:
		return ref.Int(big.NewInt(v))
	case *big.Int:
		return ref.Int(v)
	case []byte:
		return v
	case string:
		if len(v) == 42 && (v[:2] == "hx" || v[:2] == "cx") {
			b, err := hex.DecodeString(v[2:])
			if err == nil {
				p := byte(0)
				if v[0] == 'c' {
					p = 1
				}
				return append([]byte{p}, b...)
			}
		}
		return []byte(v)
	}
	panic(fmt.Sprintf("unknown argument %T", a))
}

func (m *M) emit(sig string, indexed, data []any) { m.ev = append(m.ev, Ev(sig, indexed, data)) }

// move moves coins the way the platform does, with an event.
func (m *M) move(from, to string, amount *big.Int) {
	if amount.Sign() == 0 || from == to {
		return
	}
	m.shift(from, to, amount)
	m.emit("Transfer(Address,Address,int)", []any{from, to}, []any{amount})
}

func (m *M) shift(from, to string, amount *big.Int) {
	m.Bal[from] = sub(m.Balance(from), amount)
	m.Bal[to] = add(m.Balance(to), amount)
	if m.Bal[from].Sign() < 0 {
		panic(fmt.Sprintf("model: %s pays %s more than it has", from, amount))
	}
}

// TermOf tells the term and the block's place in it; -1 before the start.
func (m *M) TermOf(height int64) (int64, int64) {
	if m.IssueStart == 0 || height < m.IssueStart {
		return -1, -1
	}
	d := height - m.IssueStart
	return d / m.TermPeriod, d % m.TermPeriod
}

// Started tells if the issue has started at a height.
func (m *M) Started(height int64) bool { t, _ := m.TermOf(height); return t >= 0 }

// BaseNeeded tells if the block at the height starts with a base transaction.
func (m *M) BaseNeeded(height int64) bool {
	_, i := m.TermOf(height)
	return i == 0 || i > 0 && m.NS.Decentralized && m.NS.Period > 0 && i%m.NS.Period == 0
}

// issueAt is the amount of coins for a term, and if it is reduced by then.
func (m *M) issueAt(term int64) (*big.Int, bool) {
	if term > 0 && term%m.Cycle == 0 {
		if r := frac(m.IssueAmount, 3, 10); r.Sign() > 0 {
			return sub(m.IssueAmount, r), true
		}
	}
	return m.IssueAmount, false
}

// BaseIssue is the amount in the base transaction.
func (m *M) BaseIssue(height int64) *big.Int {
	t, i := m.TermOf(height)
	if i != 0 {
		return new(big.Int)
	}
	a, _ := m.issueAt(t)
	return a
}

// PerPlanet is the reward of every active planet in the term.
func (m *M) PerPlanet() *big.Int {
	if m.Active == 0 {
		return new(big.Int)
	}
	return new(big.Int).Quo(m.RewardTotal, big.NewInt(m.Active))
}

// Take returns the events since the last call.
func (m *M) Take() []string {
	e := m.ev
	m.ev = nil
	return e
}

// Vote of a validator node.
type Vote struct {
	Node string
	Yes  bool
}

// Base runs the base transaction. A query has no votes and keeps the active set.
func (m *M) Base(height int64, votes []Vote, query bool) {
	term, index := m.TermOf(height)
	ns := m.NS
	if index == 0 {
		if term > 0 && term <= m.Limit {
			m.termEnd()
		}
		if term < m.Limit {
			m.termStart(term)
		}
		if !m.NS.Decentralized && m.Rev >= 4 && m.AVC >= 1 && int64(len(m.Main)+len(m.Sub)) >= m.AVC {
			m.NS.Decentralized = true
			m.emit("Decentralized(int)", nil, []any{m.AVC})
		}
		if m.NS.Decentralized {
			m.NS.Period, m.NS.Allowance, m.NS.AVC = m.Period, m.Allowance, m.AVC
			if !query {
				m.electSet()
			}
		}
	}
	if m.NS.Decentralized && ns.Period > 0 && index%ns.Period == 0 && !query {
		m.votes(votes)
	}
}

func (m *M) termEnd() {
	m.move(Public, Eco, m.EcoReward)
	m.EcoReward = new(big.Int)
	for _, from := range []string{Treasury, Service} {
		bal := m.Balance(from)
		eco := frac(bal, 1, 5)
		m.move(from, SusFund, sub(bal, eco))
		m.move(from, Eco, eco)
	}
	missed := m.RewardTotal
	if m.Active > 0 {
		missed = new(big.Int).Mul(m.PerPlanet(), big.NewInt(m.Active-m.Working))
	}
	m.RewardRemain = sub(m.RewardRemain, missed)
	if m.RewardRemain.Sign() < 0 {
		panic("model: more missed than remains")
	}
	m.move(Public, SusFund, missed)
	if want := sub(m.HooverBudget, m.Balance(Hoover)); want.Sign() > 0 {
		if b := m.Balance(SusFund); b.Cmp(want) < 0 {
			want = b
		}
		m.move(SusFund, Hoover, want)
		m.emit("HooverRefilled(int,int,int)", nil, []any{want, m.Balance(Hoover), m.Balance(SusFund)})
	}
	m.Active, m.Working, m.ActiveUSDT = 0, 0, new(big.Int)
}

func (m *M) termStart(term int64) {
	amount, _ := m.issueAt(term)
	m.IssueAmount = amount
	m.Supply = add(m.Supply, amount)
	m.Bal[Public] = add(m.Balance(Public), amount)
	m.emit("Issued(int,int,int)", nil, []any{term, amount, m.Supply})
	m.Active, m.ActiveUSDT = int64(len(m.Planets)), m.USDT
	m.RewardRemain = add(m.RewardRemain, amount)
	m.RewardTotal = m.RewardRemain
	if m.Rev >= 2 {
		m.emit("TermStarted(int,int,int)", nil, []any{term, m.Active, m.PerPlanet()})
	}
}

// hasKeys tells if a node has the keys that the open networks need.
func (m *M) hasKeys(node string) bool { return !m.DSA || m.Keys[node] }

// standby takes validators from the rotation of sub validators.
func (m *M) standby(exclude []string, count int) []string {
	size := len(m.Sub)
	if count == 0 || size == 0 {
		return nil
	}
	if count > size {
		count = size
	}
	i := m.SubIndex
	if i >= size {
		i = 0
	}
	var r []string
	for n := 0; n < size && len(r) < count; n++ {
		v := m.Vals[m.Sub[i]]
		if index(exclude, v.Node) < 0 && !v.Disabled && m.hasKeys(v.Node) {
			r = append(r, v.Node)
		}
		i = (i + 1) % size
	}
	m.SubIndex = i
	return r
}

func index(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func (m *M) electSet() {
	var next []string
	for _, o := range m.Main {
		if v := m.Vals[o]; m.hasKeys(v.Node) && int64(len(next)) < m.NS.AVC {
			next = append(next, v.Node)
		}
	}
	next = append(next, m.standby(nil, int(m.NS.AVC)-len(next))...)
	for _, n := range m.Set {
		if index(next, n) < 0 {
			m.emit("ActiveValidatorRemoved(Address,Address,str)", []any{m.NodeOwner[n]}, []any{n, "termchange"})
		}
	}
	for _, n := range next {
		if index(m.Set, n) < 0 {
			m.emit("ActiveValidatorAdded(Address,Address)", []any{m.NodeOwner[n]}, []any{n})
		}
	}
	m.countChanged(len(m.Set), len(next))
	m.Set = next
}

func (m *M) countChanged(o, n int) {
	if o != n {
		m.emit("ActiveValidatorCountChanged(int,int)", nil, []any{o, n})
	}
}

func (m *M) votes(votes []Vote) {
	penalized := map[string]bool{}
	for _, vote := range votes {
		owner, ok := m.NodeOwner[vote.Node]
		if !ok {
			continue
		}
		v := m.Vals[owner]
		if v.Disabled || v.Disqualified {
			continue
		}
		if vote.Yes {
			v.NonVotes = 0
		} else {
			v.NonVotes++
		}
		if !v.Main && v.NonVotes > m.NS.Allowance {
			v.Disabled = true
			penalized[vote.Node] = true
			m.emit("ActiveValidatorPenalized(Address,Address)", []any{owner}, []any{vote.Node})
		}
		m.Vals[owner] = v
	}
	old := len(m.Set)
	var hit []int
	for i, n := range m.Set {
		if penalized[n] {
			hit = append(hit, i)
		}
	}
	if len(hit) == 0 {
		return
	}
	sp := m.standby(m.Set, len(hit))
	gone := map[string]bool{}
	for k, i := range hit {
		n := m.Set[i]
		m.emit("ActiveValidatorRemoved(Address,Address,str)", []any{m.NodeOwner[n]}, []any{n, "penalized"})
		if k < len(sp) {
			m.Set[i] = sp[k]
			m.emit("ActiveValidatorAdded(Address,Address)", []any{m.NodeOwner[sp[k]]}, []any{sp[k]})
		} else {
			gone[n] = true
		}
	}
	var left []string
	for _, n := range m.Set {
		if !gone[n] {
			left = append(left, n)
		}
	}
	m.Set = left
	m.countChanged(old, len(left))
}
