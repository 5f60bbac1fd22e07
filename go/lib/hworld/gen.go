package hworld

import (
	"fmt"
	"math/big"

	"github.com/icon-project/goloop/zzpbt/hmodel"
	"pgregory.net/rapid"
)

// Users that own planets, manage them and send coins.
var Users = []string{
	"hx00000000000000000000000000000000000000a1",
	"hx00000000000000000000000000000000000000a2",
	"hx00000000000000000000000000000000000000a3",
	"hx00000000000000000000000000000000000000a4",
	"cx00000000000000000000000000000000000000a5",
}

// Owner of a validator.
func Owner(i int) string { return fmt.Sprintf("hx%040x", 0xb00+i) }

// Coin is 10^18.
var Coin = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

// Coins is n coins.
func Coins(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), Coin) }

// G draws.
type G struct{ T *rapid.T }

// Int draws from a range.
func (g G) Int(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, "n") }

// Chance is true in n of d cases.
func (g G) Chance(n, d int) bool { return g.Int(1, d) <= n }

// Pick one.
func Pick[E any](g G, l ...E) E { return l[g.Int(0, len(l)-1)] }

// Amount draws coins of any size: none, single units, odd amounts, big ones.
func (g G) Amount() *big.Int {
	switch g.Int(0, 5) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(g.Int(1, 50)))
	case 2:
		return new(big.Int).Add(Coins(int64(g.Int(0, 3))), big.NewInt(int64(g.Int(0, 1000000007))))
	case 3:
		return Coins(int64(g.Int(1, 10000)))
	default:
		return new(big.Int).Mul(big.NewInt(int64(g.Int(1, 99999))), big.NewInt(int64(g.Int(1, 1<<40))))
	}
}

// Config draws a genesis block.
func (g G) Config() hmodel.Config {
	c := hmodel.Config{
		Rev:        Pick(g, 0, 1, 2, 2, 3, 4, 5, 6, 7),
		StepPrice:  Pick(g, int64(0), 1, 7, 12500000000),
		TermPeriod: int64(Pick(g, 1, 2, 3, 3, 4, 5, 7)),
		Cycle:      int64(Pick(g, 1, 2, 3, 5, 360)),
		Limit:      int64(Pick(g, 1, 2, 4, 7, 18000, 18000)),
		Budget:     Pick(g, new(big.Int), big.NewInt(1000), Coins(5), Coins(4300000)),
		USDT:       g.USDT(),
		Accounts:   map[string]*big.Int{},
	}
	c.Issue = Pick(g, big.NewInt(1), big.NewInt(10), big.NewInt(int64(g.Int(1, 1000))), Coins(4300000),
		new(big.Int).Add(Coins(int64(g.Int(0, 10))), big.NewInt(int64(g.Int(1, 1000000)))))
	for _, u := range Users {
		c.Accounts[u] = Coins(1000000000)
	}
	for _, u := range []string{hmodel.Governance, hmodel.PlanetNFT} {
		c.Accounts[u] = Coins(1000000)
	}
	for _, u := range []string{hmodel.Hoover, hmodel.SusFund, hmodel.Treasury, hmodel.Service} {
		if g.Chance(1, 2) {
			c.Accounts[u] = g.Amount()
		}
	}
	return c
}

// USDT draws the price of a dollar in coins.
func (g G) USDT() *big.Int {
	return Pick(g, new(big.Int), big.NewInt(int64(g.Int(1, 100))), Coins(1), Coins(int64(g.Int(1, 100))),
		new(big.Int).Add(Coins(2), big.NewInt(int64(g.Int(1, 1000000000)))))
}

// ID draws a planet's number.
func (g G) ID() int64 {
	if g.Chance(1, 30) {
		return Pick(g, int64(-1), 1<<40, 1<<62, 255, 256)
	}
	return int64(g.Int(0, 6))
}

// Caller is the right one, mostly.
func (g G) Caller(right string) string {
	if g.Chance(1, 12) {
		return Pick(g, Users[0], Users[1], hmodel.Governance, hmodel.PlanetNFT)
	}
	return right
}

func call(from, method string, kv ...any) hmodel.Op {
	p := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		p[kv[i].(string)] = kv[i+1]
	}
	return hmodel.Op{From: from, To: hmodel.System, Method: method, P: p}
}

// Call makes a transaction that calls a method of the system.
func Call(from, method string, kv ...any) hmodel.Op { return call(from, method, kv...) }

// Transfer draws a transfer of coins.
func (g G) Transfer(m *hmodel.M) hmodel.Op {
	from := Users[g.Int(0, 3)]
	to := Pick(g, Users[0], Users[1], Users[2], Users[3], hmodel.System, hmodel.System, hmodel.Treasury, hmodel.Public,
		hmodel.Service, hmodel.Service, hmodel.Hoover)
	v := g.Amount()
	if g.Chance(1, 10) {
		v = new(big.Int).Add(m.Balance(from), Coins(1000000000000+int64(g.Int(0, 9))))
	}
	return hmodel.Op{From: from, To: to, Value: v}
}

// PlanetOp draws an operation on planets and rewards.
func (g G) PlanetOp(m *hmodel.M, h int64) hmodel.Op {
	known := func() int64 {
		if len(m.Planets) > 0 && g.Chance(9, 10) {
			ids := PlanetIDs(m)
			return ids[g.Int(0, len(ids)-1)]
		}
		return g.ID()
	}
	ownerOf := func(id int64) string {
		if p, ok := m.Planets[id]; ok && g.Chance(14, 15) {
			return p.Owner
		}
		return Users[g.Int(0, len(Users)-1)]
	}
	switch k := g.Int(0, 39); {
	case k < 8:
		return g.register()
	case k < 10:
		return call(g.Caller(hmodel.PlanetNFT), "unregisterPlanet", "id", known())
	case k < 12:
		return call(g.Caller(hmodel.PlanetNFT), "setPlanetOwner", "id", known(), "owner", Users[g.Int(0, len(Users)-1)])
	case k < 25:
		from := Users[g.Int(0, 2)]
		if len(m.Managers) > 0 && g.Chance(14, 15) {
			from = m.Managers[g.Int(0, len(m.Managers)-1)]
		}
		return call(from, "reportPlanetWork", "id", known())
	case k < 31:
		n := Pick(g, 0, 1, 1, 2, 3, 6, 7)
		if g.Chance(1, 25) {
			n = Pick(g, 49, 50, 51)
		}
		ids := []int64{}
		for i := 0; i < n; i++ {
			ids = append(ids, known())
		}
		from := Users[g.Int(0, len(Users)-1)]
		if n > 0 {
			from = ownerOf(ids[0])
		}
		return call(from, "claimPlanetReward", "ids", ids)
	case k < 33:
		return call(g.Caller(hmodel.Governance), "addPlanetManager", "address", Users[g.Int(0, 2)])
	case k < 34:
		return call(g.Caller(hmodel.Governance), "removePlanetManager", "address", Users[g.Int(0, 2)])
	case k < 36:
		n, d := int64(g.Int(0, 24)), int64(24)
		if g.Chance(1, 3) {
			n, d = Pick(g, int64(-1), 0, 1, 7, 9999, 10000, 10001), Pick(g, int64(-1), 0, 1, 7, 13, 9999, 10000, 10001)
		}
		return call(g.Caller(hmodel.Governance), "setPrivateClaimableRate", "numerator", n, "denominator", d)
	case k < 38:
		p := g.USDT()
		if g.Chance(1, 12) {
			p = big.NewInt(-1)
		}
		return call(g.Caller(hmodel.Governance), "setUSDTPrice", "price", p)
	default:
		return call(g.Caller(hmodel.Governance), "withdrawLostTo", "to", Users[g.Int(0, len(Users)-1)])
	}
}

// Start draws a call that starts the issue.
func (g G) Start(h int64) hmodel.Op {
	return call(g.Caller(hmodel.Governance), "startRewardIssue", "height", h+int64(g.Int(-1, 4)))
}

// Revision draws a call that raises the revision.
func (g G) Revision(m *hmodel.M) hmodel.Op {
	rev := m.Rev + g.Int(-1, 2)
	if rev < 0 {
		rev = 0
	}
	return call(g.Caller(hmodel.Governance), "setRevision", "code", int64(rev))
}

// Setup draws the first block: managers, planets, and the start of the issue.
func (g G) Setup(h int64) []hmodel.Op {
	l := []hmodel.Op{}
	if g.Chance(5, 6) {
		l = append(l, call(hmodel.Governance, "addPlanetManager", "address", Users[g.Int(0, 2)]))
	}
	for i := g.Int(0, 3); i > 0; i-- {
		l = append(l, g.register())
	}
	if g.Chance(9, 10) {
		l = append(l, call(hmodel.Governance, "startRewardIssue", "height", h+int64(g.Int(1, 4))))
	}
	return l
}

// Report draws a report on a planet that has not been reported in the term.
func (g G) Report(m *hmodel.M, h int64) hmodel.Op {
	t, _ := m.TermOf(h)
	ids := []int64{}
	for _, id := range PlanetIDs(m) {
		if r, ok := m.Rewards[id]; !ok || r.LastTN < t {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 || len(m.Managers) == 0 {
		return g.PlanetOp(m, h)
	}
	return call(m.Managers[g.Int(0, len(m.Managers)-1)], "reportPlanetWork", "id", ids[g.Int(0, len(ids)-1)])
}

// Claim draws a claim of rewards that are there.
func (g G) Claim(m *hmodel.M, h int64) hmodel.Op {
	ids, from := []int64{}, ""
	for _, id := range PlanetIDs(m) {
		if o := m.Planets[id].Owner; m.Claimable(id).Sign() > 0 && (from == "" || o == from) {
			ids, from = append(ids, id), o
		}
	}
	if m.Lost.Sign() > 0 && g.Chance(1, 3) {
		return call(g.Caller(hmodel.Governance), "withdrawLostTo", "to", Users[g.Int(0, len(Users)-1)])
	}
	if len(ids) == 0 {
		return g.Report(m, h)
	}
	if g.Chance(1, 3) {
		ids = append(ids, g.ID())
	}
	return call(g.Caller(from), "claimPlanetReward", "ids", ids)
}

func (g G) register() hmodel.Op {
	price := Pick(g, new(big.Int), big.NewInt(int64(g.Int(1, 1000))), Coins(1), Coins(int64(g.Int(1, 1000000))), g.Amount())
	usdt := Pick(g, new(big.Int), big.NewInt(int64(g.Int(1, 3600))), big.NewInt(5000_000000), big.NewInt(int64(g.Int(1, 1<<40))))
	return call(g.Caller(hmodel.PlanetNFT), "registerPlanet", "id", g.ID(), "isPrivate", g.Chance(1, 2), "isCompany",
		g.Chance(1, 3), "owner", Users[g.Int(0, len(Users)-1)], "usdt", usdt, "price", price)
}

// PlanetIDs in order.
func PlanetIDs(m *hmodel.M) []int64 {
	var l []int64
	for id := range m.Planets {
		l = append(l, id)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// ValidatorOp draws an operation on validators.
func (g G) ValidatorOp(m *hmodel.M, genesis int) hmodel.Op {
	known := func() string {
		var l []string
		for i := 0; i < 12; i++ {
			if _, ok := m.Vals[Owner(i)]; ok {
				l = append(l, Owner(i))
			}
		}
		if len(l) > 0 && g.Chance(19, 20) {
			return l[g.Int(0, len(l)-1)]
		}
		return Pick(g, Owner(g.Int(0, 11)), Users[0], Users[4])
	}
	text := func(max int) string {
		n := Pick(g, 0, 1, 5, max-1, max, max+1)
		if n > 5 && g.Chance(2, 3) {
			n = 3
		}
		s := ""
		for len(s) < n {
			s += "x"
		}
		return s
	}
	key := func() []byte {
		k := hmodel.KeyOf(g.Int(0, 39))
		if g.Chance(1, 20) {
			k = Pick(g, k[:32], append(append([]byte{}, k...), 0), append([]byte{5}, k[1:]...), []byte{}, make([]byte, 33))
		}
		return k
	}
	switch k := g.Int(0, 29); {
	case k < 9:
		kv := []any{"owner", Owner(g.Int(0, 11)), "nodePublicKey", key(), "grade", Pick(g, "main", "sub", "sub", "sub"), "name", text(100)}
		if g.Chance(1, 20) {
			kv[5] = Pick(g, "", "Main", "all")
		}
		if g.Chance(1, 2) {
			kv = append(kv, "url", text(200))
		}
		return call(g.Caller(hmodel.Governance), "registerValidator", kv...)
	case k < 12:
		o := known()
		return call(Pick(g, o, hmodel.Governance, hmodel.Governance, Users[0]), "unregisterValidator", "owner", o)
	case k < 17:
		return call(known(), "setNodePublicKey", "pubKey", key())
	case k < 22:
		o := known()
		return call(Pick(g, o, o, o, hmodel.Governance, Users[0]), "enableValidator", "owner", o)
	case k < 24:
		var kvs [][2]string
		for i := g.Int(0, 2); i > 0; i-- {
			n := Pick(g, "name", "url", "name", "url", "grade")
			max := 100
			if n == "url" {
				max = 200
			}
			kvs = append(kvs, [2]string{n, text(max)})
		}
		return call(known(), "setValidatorInfo", "values", kvs)
	case k < 27:
		n := int64(g.Int(1, 6))
		if g.Chance(1, 12) {
			n = Pick(g, int64(-1), 0, 1000, 1001)
		}
		return call(g.Caller(hmodel.Governance), "setActiveValidatorCount", "count", n)
	case k < 29:
		p, a := int64(Pick(g, 0, 1, 1, 2, 3)), int64(Pick(g, 0, 0, 1, 2))
		if g.Chance(1, 12) {
			p = -1
		}
		return call(g.Caller(hmodel.Governance), "setBlockVoteCheckParameters", "period", p, "allowance", a)
	default:
		return call(g.Caller(hmodel.Governance), "openBTPNetwork", "networkTypeName", Pick(g, "eth", "eth", "eth", "", "x"), "name", "n",
			"owner", Users[0])
	}
}

// Validators draws the first block of a network with n validators: all of
// them are registered before anything else happens.
func Validators(g G, n int) []hmodel.Op {
	mains := g.Int(1, 3)
	var l []hmodel.Op
	for i := 0; i < n; i++ {
		gr := "sub"
		if i < mains {
			gr = "main"
		}
		l = append(l, Call(hmodel.Governance, "registerValidator", "owner", Owner(i), "nodePublicKey", hmodel.KeyOf(i),
			"grade", gr, "name", fmt.Sprint("v", i)))
	}
	l = append(l, Call(hmodel.Governance, "setActiveValidatorCount", "count", int64(g.Int(1, n))))
	l = append(l, Call(hmodel.Governance, "setBlockVoteCheckParameters", "period", int64(g.Int(1, 3)), "allowance", int64(g.Int(0, 2))))
	l = append(l, Call(hmodel.Governance, "startRewardIssue", "height", int64(g.Int(2, 4))))
	return l
}

// KeepMain leaves out calls that would end the network: it keeps a main validator.
func KeepMain(w *World, l []hmodel.Op) (r []hmodel.Op) {
	mains := len(w.M.Main)
	for _, o := range l {
		if o.Method == "unregisterValidator" {
			if v, ok := w.M.Vals[o.P["owner"].(string)]; ok && v.Main && !v.Disqualified {
				if mains <= 1 {
					continue
				}
				mains--
			}
		}
		r = append(r, o)
	}
	return
}
