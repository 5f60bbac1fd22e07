package hmodel

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/icon-project/goloop/zzpbt/sim"
)

// Op is a transaction.
type Op struct {
	From, To string
	Value    *big.Int
	Method   string
	P        map[string]any
}

// Out is what a transaction does.
type Out struct {
	OK     bool
	Denied bool // refused for missing permission
	Events []string
}

func (o Op) String() string {
	if o.Method == "" {
		return fmt.Sprintf("%s pays %s to %s", short(o.From), o.Value, short(o.To))
	}
	return fmt.Sprintf("%s calls %s(%s)", short(o.From), o.Method, o.args())
}

func (o Op) args() string {
	var l []string
	for _, k := range []string{"id", "ids", "address", "owner", "isPrivate", "isCompany", "usdt", "price", "height",
		"numerator", "denominator", "to", "code", "period", "allowance", "nodePublicKey", "grade", "name", "url", "pubKey",
		"count", "values", "networkTypeName"} {
		v, ok := o.P[k]
		if !ok {
			continue
		}
		switch x := v.(type) {
		case []byte:
			v = hex.EncodeToString(x)
		case string:
			v = short(x)
		}
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	return strings.Join(l, " ")
}

func short(a string) string {
	if len(a) == 42 {
		return a[:4] + ".." + a[37:]
	}
	if len(a) > 30 {
		return fmt.Sprintf("%s..(%d)", a[:20], len(a))
	}
	return a
}

// Params writes the parameters as the API takes them.
func (o Op) Params() any {
	if o.P == nil {
		return nil
	}
	r := map[string]any{}
	for k, v := range o.P {
		r[k] = enc(v)
	}
	return r
}

func enc(v any) any {
	switch x := v.(type) {
	case int64:
		return sim.Num(x)
	case *big.Int:
		return sim.Hex(x)
	case bool:
		if x {
			return "0x1"
		}
		return "0x0"
	case []byte:
		return "0x" + hex.EncodeToString(x)
	case string:
		return x
	case []int64:
		l := []any{}
		for _, i := range x {
			l = append(l, sim.Num(i))
		}
		return l
	case [][2]string:
		l := []any{}
		for _, kv := range x {
			l = append(l, map[string]any{"key": kv[0], "value": kv[1]})
		}
		return l
	}
	panic(fmt.Sprintf("unknown parameter %T", v))
}

type refused struct{ denied bool }

func fail()   { panic(refused{false}) }
func denied() { panic(refused{true}) }
func need(ok bool) {
	if !ok {
		fail()
	}
}
func allow(ok bool) {
	if !ok {
		denied()
	}
}

// Steps is what every transaction costs in the test chains.
const Steps = 100000

// Exec runs a transaction.
func (m *M) Exec(o Op, height int64) (out Out) {
	c := m.Clone()
	c.ev = nil
	func() {
		defer func() {
			if p := recover(); p != nil {
				r, ok := p.(refused)
				if !ok {
					panic(p)
				}
				out.Denied = r.denied
			}
		}()
		c.call(o, height)
		out.OK = true
	}()
	if out.OK {
		out.Events = c.Take()
		*m = *c
	}
	return
}

// PayFees moves the fees of a block's transactions.
func (m *M) PayFees(ops []Op, price *big.Int) {
	fee := new(big.Int).Mul(price, big.NewInt(Steps))
	for _, o := range ops {
		m.shift(o.From, Treasury, fee)
	}
}

func contract(a string) bool { return a[0] == 'c' }

func (m *M) call(o Op, height int64) {
	if o.Method == "" {
		need(m.Balance(o.From).Cmp(o.Value) >= 0)
		m.shift(o.From, o.To, o.Value)
		if o.To == System {
			m.shift(System, "burnt", o.Value)
			delete(m.Bal, "burnt")
			m.Supply = sub(m.Supply, o.Value)
			m.emit("Burned(Address,int,int)", []any{System}, []any{o.Value, m.Supply})
		}
		return
	}
	gov := o.From == Governance
	i64 := func(n string) int64 { return o.P[n].(int64) }
	str := func(n string) string { return o.P[n].(string) }
	num := func(n string) *big.Int { return o.P[n].(*big.Int) }
	switch o.Method {
	case "setRevision":
		allow(gov)
		rev := int(i64("code"))
		need(rev >= m.Rev && rev <= 7)
		for r := m.Rev + 1; r <= rev; r++ {
			if r >= 5 {
				for _, l := range [][]string{m.Main, m.Sub} {
					for _, ow := range l {
						m.Keys[m.Vals[ow].Node] = true
					}
				}
			}
		}
		m.Rev = rev
	case "setUSDTPrice":
		allow(m.Rev < 3 || gov)
		need(num("price").Sign() >= 0)
		m.USDT = num("price")
	case "startRewardIssue":
		allow(gov)
		need(i64("height") > height && !m.Started(height))
		m.IssueStart = i64("height")
	case "addPlanetManager":
		allow(gov)
		need(index(m.Managers, str("address")) < 0)
		m.Managers = append(m.Managers, str("address"))
	case "removePlanetManager":
		allow(gov)
		i := index(m.Managers, str("address"))
		need(i >= 0)
		last := len(m.Managers) - 1
		m.Managers[i] = m.Managers[last]
		m.Managers = m.Managers[:last]
	case "registerPlanet":
		allow(o.From == PlanetNFT)
		id := i64("id")
		need(id >= 0)
		_, used := m.Planets[id]
		need(!used)
		m.Planets[id] = Planet{o.P["isPrivate"].(bool), o.P["isCompany"].(bool), str("owner"), num("usdt"), num("price"), height}
	case "unregisterPlanet":
		allow(o.From == PlanetNFT)
		id := i64("id")
		_, used := m.Planets[id]
		need(used)
		delete(m.Planets, id)
		if m.Rev >= 2 {
			r := m.reward(id)
			delete(m.Rewards, id)
			if r.Current.Sign() > 0 {
				m.Lost = add(m.Lost, r.Current)
				m.emit("LostDeposited(int,int,str)", nil, []any{r.Current, m.Lost, fmt.Sprintf("PlanetUnregistered(id=%d)", id)})
			}
		}
	case "setPlanetOwner":
		allow(o.From == PlanetNFT)
		p, ok := m.Planets[i64("id")]
		need(ok)
		p.Owner = str("owner")
		m.Planets[i64("id")] = p
	case "reportPlanetWork":
		allow(index(m.Managers, o.From) >= 0)
		m.report(i64("id"), height)
	case "claimPlanetReward":
		ids := o.P["ids"].([]int64)
		need(len(ids) <= 50 && m.Started(height))
		term, _ := m.TermOf(height)
		for _, id := range ids {
			p, ok := m.Planets[id]
			if !ok || p.Owner != o.From {
				continue
			}
			r := m.reward(id)
			c := m.Claimable(id)
			if c.Sign() > 0 {
				r.Current = sub(r.Current, c)
				m.Rewards[id] = r
				m.move(Public, o.From, c)
				m.emit("RewardClaimed(Address,int,int,int)", []any{o.From}, []any{term, id, c})
			}
		}
	case "setPrivateClaimableRate":
		allow(gov)
		n, d := i64("numerator"), i64("denominator")
		need(0 <= n && n <= d && 0 < d && d <= 10000)
		m.Num, m.Den = n, d
	case "withdrawLostTo":
		need(m.Rev >= 2)
		allow(gov)
		to := str("to")
		need(!contract(to))
		l := m.Lost
		m.Lost = new(big.Int)
		if l.Sign() > 0 {
			m.move(Public, to, l)
			m.emit("LostWithdrawn(Address,int)", nil, []any{to, l})
		}
	default:
		need(m.Rev >= 4)
		m.validatorCall(o, height, gov)
	}
}

func (m *M) reward(id int64) Reward {
	if r, ok := m.Rewards[id]; ok {
		return r
	}
	return Reward{new(big.Int), new(big.Int), 0}
}

// Reward of a planet.
func (m *M) Reward(id int64) Reward { return m.reward(id) }

// Claimable is what the owner of a planet can take now.
func (m *M) Claimable(id int64) *big.Int {
	r := m.reward(id)
	if !m.Planets[id].Private {
		return r.Current
	}
	c := sub(r.Current, frac(r.Total, m.Den-m.Num, m.Den))
	if c.Sign() < 0 {
		return new(big.Int)
	}
	return c
}

func (m *M) report(id, height int64) {
	need(m.Started(height))
	p, ok := m.Planets[id]
	need(ok)
	term, index := m.TermOf(height)
	need(p.Height < height-index)
	r := m.reward(id)
	need(term+1 > r.LastTN)
	reward := m.PerPlanet()
	need(m.RewardRemain.Cmp(reward) >= 0)
	m.RewardRemain = sub(m.RewardRemain, reward)
	help := new(big.Int)
	if limit := sub(sub(p.Price, r.Total), reward); limit.Sign() > 0 {
		guide := new(big.Int).Mul(p.USDT, m.ActiveUSDT)
		for _, d := range []int64{1000000, 10, 360} {
			guide = new(big.Int).Quo(guide, big.NewInt(d))
		}
		if reward.Cmp(guide) < 0 {
			help = sub(guide, reward)
			for _, l := range []*big.Int{limit, m.Balance(Hoover)} {
				if help.Cmp(l) > 0 {
					help = l
				}
			}
		}
	}
	m.move(Hoover, Public, help)
	all := add(reward, help)
	own := all
	if p.Company {
		eco := frac(all, 3, 5)
		own = sub(all, eco)
		m.EcoReward = add(m.EcoReward, eco)
	}
	m.Rewards[id] = Reward{add(r.Total, all), add(r.Current, own), term + 1}
	m.Working++
	m.emit("RewardOffered(int,int,int,int)", nil, []any{term, id, all, help})
}

func (m *M) validatorCall(o Op, height int64, gov bool) {
	i64 := func(n string) int64 { return o.P[n].(int64) }
	str := func(n string) string { return o.P[n].(string) }
	switch o.Method {
	case "setBlockVoteCheckParameters":
		allow(gov)
		p, a := i64("period"), i64("allowance")
		need(p >= 0 && a >= 0)
		m.Period, m.Allowance = p, a
	case "setActiveValidatorCount":
		allow(gov)
		need(i64("count") >= 1 && i64("count") <= 1000)
		m.AVC = i64("count")
	case "registerValidator":
		allow(gov)
		key := o.P["nodePublicKey"].([]byte)
		node, ok := NodeOf(key)
		need(ok)
		need(str("grade") == "main" || str("grade") == "sub")
		url, _ := o.P["url"].(string)
		need(len(str("name")) <= 100 && len(url) <= 200)
		owner := str("owner")
		_, used := m.Vals[owner]
		need(!used)
		_, used = m.NodeOwner[node]
		need(!used)
		v := Validator{Owner: owner, Node: node, Key: key, Main: str("grade") == "main", Name: str("name"), URL: url}
		m.Vals[owner] = v
		m.NodeOwner[node] = owner
		if v.Main {
			m.Main = append(m.Main, owner)
		} else {
			m.Sub = append(m.Sub, owner)
		}
		if m.Rev >= 6 {
			m.Keys[node] = true
		}
	case "unregisterValidator":
		owner := str("owner")
		need(!contract(owner))
		allow(gov || o.From == owner)
		v, ok := m.Vals[owner]
		need(ok)
		if v.Disqualified {
			return
		}
		v.Disqualified = true
		m.Vals[owner] = v
		l := &m.Sub
		if v.Main {
			l = &m.Main
		}
		i, last := index(*l, owner), len(*l)-1
		(*l)[i] = (*l)[last]
		*l = (*l)[:last]
		m.Disq = append(m.Disq, owner)
		if i := index(m.Set, v.Node); i >= 0 {
			m.Set = append(m.Set[:i:i], m.Set[i+1:]...)
			m.emit("ActiveValidatorRemoved(Address,Address,str)", []any{owner}, []any{v.Node, "unregistered"})
			m.countChanged(len(m.Set)+1, len(m.Set))
		}
	case "setNodePublicKey":
		need(!contract(o.From))
		key := o.P["pubKey"].([]byte)
		node, ok := NodeOf(key)
		need(ok)
		v, ok := m.Vals[o.From]
		need(ok && !v.Disqualified)
		if m.Rev >= 5 {
			m.Keys[node] = true
		}
		if node == v.Node {
			return
		}
		_, used := m.NodeOwner[node]
		need(!used)
		m.NodeOwner[node] = o.From
		if i := index(m.Set, v.Node); i >= 0 {
			m.Set[i] = node
			m.emit("ActiveValidatorRemoved(Address,Address,str)", []any{o.From}, []any{v.Node, "pubkeychange"})
			m.emit("ActiveValidatorAdded(Address,Address)", []any{o.From}, []any{node})
		}
		v.Node, v.Key = node, key
		m.Vals[o.From] = v
	case "enableValidator":
		owner := str("owner")
		need(!contract(owner))
		allow(gov || o.From == owner)
		v, ok := m.Vals[owner]
		need(ok)
		allow(!v.Disqualified)
		if v.Disabled {
			if gov {
				v.Enables = 0
			} else {
				allow(v.Enables < 3)
				v.Enables++
			}
			v.Disabled = false
		}
		v.NonVotes = 0
		m.Vals[owner] = v
	case "setValidatorInfo":
		need(!contract(o.From))
		kvs := o.P["values"].([][2]string)
		seen := map[string]bool{}
		for _, kv := range kvs {
			need(!seen[kv[0]])
			seen[kv[0]] = true
		}
		if len(kvs) == 0 {
			return
		}
		v, ok := m.Vals[o.From]
		need(ok)
		for _, kv := range kvs {
			switch kv[0] {
			case "name":
				need(len(kv[1]) <= 100)
				v.Name = kv[1]
			case "url":
				need(len(kv[1]) <= 200)
				v.URL = kv[1]
			default:
				fail()
			}
		}
		m.Vals[o.From] = v
	case "openBTPNetwork":
		need(m.Rev >= 5)
		allow(gov)
		tn := str("networkTypeName")
		need(tn == "eth")
		i := index(m.NTypes, tn)
		if i < 0 {
			need(len(m.Keys) > 0)
			for _, n := range m.Set {
				need(m.Keys[n])
			}
			m.DSA = true
			m.NTypes = append(m.NTypes, tn)
			i = len(m.NTypes) - 1
			m.emit("BTPNetworkTypeActivated(str,int)", []any{tn, int64(i + 1)}, nil)
		}
		m.NetCount++
		m.emit("BTPNetworkOpened(int,int)", []any{int64(i + 1), m.NetCount}, nil)
	default:
		panic("unknown method " + o.Method)
	}
}

// Same tells if two keys are the same.
func Same(a, b []byte) bool { return bytes.Equal(a, b) }
