// Package hworld drives a HAVAH chain and its reference model side by side.
package hworld

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/scoreresult"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

// TS is the time of a block.
func TS(h int64) int64 { return h * 2_000_000 }

// World is a node and its model.
type World struct {
	R     *kit.Rec
	N     *sim.Node
	M     *hmodel.M
	H     int64 // height of the next block
	Cfg   hmodel.Config
	nonce int64
	price *big.Int
	// Look says what a property compares.
	Look Look
	// Blocks executed so far.
	Last *sim.Block
	// Seen counts what has happened: model events, refused calls.
	Seen map[string]int
	// Before runs before every block, with the transactions of the block.
	Before func(txs []module.Transaction, h int64, csi module.ConsensusInfo)
	// Mirror nodes re-execute every block.
	Hook func(txs []module.Transaction, h int64, csi module.ConsensusInfo, b *sim.Block)
}

// Look says what is compared with the model after every block.
type Look struct {
	Status   func(hmodel.Op) bool // outcome of these transactions
	Events   func(sig string) bool
	Balances bool
	Set      bool
}

// All is a filter that passes everything.
func All(string) bool { return true }

// AllOps passes every transaction.
func AllOps(hmodel.Op) bool { return true }

// Genesis writes the genesis transaction.
func Genesis(c hmodel.Config) []byte {
	acc := []any{}
	names := []string{}
	for a := range c.Accounts {
		names = append(names, a)
	}
	sort.Strings(names)
	put := func(n, a string, b *big.Int) {
		acc = append(acc, map[string]any{"name": n, "address": a, "balance": sim.Hex(b)})
	}
	zero := new(big.Int)
	get := func(a string) *big.Int {
		if b := c.Accounts[a]; b != nil {
			return b
		}
		return zero
	}
	put("god", "hx0000000000000000000000000000000000000aaa", get("hx0000000000000000000000000000000000000aaa"))
	put("treasury", hmodel.Treasury, get(hmodel.Treasury))
	for i, a := range names {
		if a != hmodel.Treasury && a != "hx0000000000000000000000000000000000000aaa" {
			put(fmt.Sprintf("a%d", i), a, get(a))
		}
	}
	hv := map[string]any{"usdtPrice": sim.Hex(c.USDT)}
	if c.TermPeriod != 43200 {
		hv["termPeriod"] = sim.Num(c.TermPeriod)
	}
	if !c.NoDefault {
		hv["issueReductionCycle"] = sim.Num(c.Cycle)
		hv["issueLimit"] = sim.Num(c.Limit)
		hv["issueAmount"] = sim.Hex(c.Issue)
		hv["hooverBudget"] = sim.Hex(c.Budget)
	}
	js, err := json.Marshal(map[string]any{"accounts": acc, "chain": map[string]any{
		"revision": sim.Num(int64(c.Rev)), "blockInterval": "0x7d0", "roundLimitFactor": "0x3",
		"fee": map[string]any{"stepPrice": sim.Num(c.StepPrice),
			"stepLimit": map[string]any{"invoke": "0x9502f900", "query": "0x2faf080"},
			"stepCosts": map[string]any{"default": sim.Num(hmodel.Steps)}},
		"validatorList": c.Validators, "havah": hv}, "message": "", "nid": "0x1"})
	if err != nil {
		panic(err)
	}
	return js
}

// New starts a chain.
func New(r *kit.Rec, c hmodel.Config) *World {
	w := &World{R: r, Cfg: c, H: 1, Seen: map[string]int{}, price: big.NewInt(c.StepPrice), Look: Look{AllOps, All, true, true}}
	w.N = sim.NewNode(sim.Options{Dir: r.TempDir()})
	b, err := w.N.Genesis(Genesis(c))
	r.NoErr(err, "the genesis block fails")
	r.Need(b.Receipts[0].Status == module.StatusSuccess, "the genesis transaction fails: %v", b.Receipts[0].Status)
	w.M = hmodel.New(c)
	return w
}

// Votes of the active set; a nil list means everybody votes.
func (w *World) Votes(yes []bool) (module.ConsensusInfo, []hmodel.Vote) {
	vl := w.N.Last().NextValidators()
	l := sim.Addresses(vl)
	votes := make([]hmodel.Vote, len(l))
	bs := make([]bool, len(l))
	for i, n := range l {
		y := yes == nil || i >= len(yes) || yes[i]
		votes[i], bs[i] = hmodel.Vote{Node: n, Yes: y}, y
	}
	p := "hx00000000000000000000000000000000000000b1"
	if len(l) > 0 {
		p = l[int(w.H)%len(l)]
	}
	return sim.CSI(p, vl, bs), votes
}

// Block runs the operations as the next block and compares it with the model.
func (w *World) Block(ops []hmodel.Op, yes []bool, validated bool) *sim.Block {
	r, h := w.R, w.H
	csi, votes := w.Votes(yes)
	base, err := w.N.Base(h, TS(h), csi)
	r.NoErr(err, "no block can be proposed at height %d", h)
	var txs []module.Transaction
	var no []string
	for _, v := range votes {
		if !v.Yes {
			no = append(no, v.Node[:8])
		}
	}
	line := fmt.Sprintf("block %d:", h)
	if base != nil {
		txs = append(txs, base)
		line += " base"
		if len(no) > 0 {
			line += " without votes of " + strings.Join(no, ",")
		}
	}
	need := w.M.BaseNeeded(h)
	for _, o := range ops {
		w.nonce++
		v := o.Value
		if v == nil {
			v = new(big.Int)
		}
		txs = append(txs, sim.NewTx(o.From, o.To, v, o.Method, o.Params(), TS(h), w.nonce))
		line += "; " + o.String()
	}
	r.Step("%s", line)
	r.Need(need == (base != nil), "block %d: a base transaction is needed: %v, the node proposes one: %v", h, need, base != nil)
	if w.Before != nil {
		w.Before(txs, h, csi)
	}
	b, err := w.N.Run(txs, h, TS(h), csi, validated)
	r.NoErr(err, "block %d fails", h)
	w.H++
	w.Last = b
	if w.Hook != nil {
		w.Hook(txs, h, csi, b)
	}
	rcs := b.Receipts
	sum := new(big.Int)
	for i, x := range rcs {
		sum.Add(sum, x.StepUsed)
		r.Need(x.Cumulative.Cmp(sum) == 0, "block %d, transaction %d: %v steps were used up to it, it says %v", h, i, sum, x.Cumulative)
	}
	if base != nil {
		w.M.Base(h, votes, false)
		r.Need(rcs[0].Status == module.StatusSuccess, "block %d: the base transaction fails with %v", h, rcs[0].Status)
		w.events(fmt.Sprintf("block %d: base transaction", h), w.count(w.M.Take()), rcs[0].Events)
		rcs = rcs[1:]
	}
	for i, o := range ops {
		out := w.M.Exec(o, h)
		name := fmt.Sprintf("block %d: %v", h, o)
		if w.Look.Status(o) {
			ok := rcs[i].Status == module.StatusSuccess
			r.Need(ok == out.OK, "%s: should succeed: %v, but status is %v", name, out.OK, rcs[i].Status)
			if out.Denied {
				r.Need(rcs[i].Status == module.StatusAccessDenied, "%s: should be refused for missing permission, but status is %v", name, rcs[i].Status)
			} else if !ok {
				r.Need(rcs[i].Status != module.StatusAccessDenied, "%s: should fail, but not for missing permission", name)
			}
		}
		w.events(name, w.count(out.Events), rcs[i].Events)
		switch {
		case out.OK && o.Method != "":
			w.Seen["done "+o.Method]++
		case out.OK:
			w.Seen["transfer"]++
		case out.Denied:
			w.Seen["denied"]++
		default:
			w.Seen["failed"]++
		}
	}
	w.M.PayFees(ops, w.price)
	if w.Look.Balances {
		w.Balances()
	}
	if w.Look.Set {
		r.Need(fmt.Sprint(b.Validators) == fmt.Sprint(nz(w.M.Set)), "block %d: next validators are %v, should be %v", h, b.Validators, w.M.Set)
	}
	return b
}

func (w *World) count(l []string) []string {
	for _, e := range l {
		w.Seen[e[:strings.Index(e, "(")]]++
	}
	return l
}

// Labels reports what has been seen.
func (w *World) Labels() {
	for k := range w.Seen {
		w.R.Label("with " + k)
	}
}

func nz(l []string) []string {
	if l == nil {
		return []string{}
	}
	return l
}

func (w *World) events(what string, want []string, got []sim.Event) {
	keep := func(l []string) (r []string) {
		for _, e := range l {
			if w.Look.Events(e[:strings.Index(e, " ")]) {
				r = append(r, e)
			}
		}
		return
	}
	var g []string
	for _, e := range got {
		ix, da := []any{}, []any{}
		for _, b := range e.Indexed {
			ix = append(ix, b)
		}
		for _, b := range e.Data {
			da = append(da, b)
		}
		s := hmodel.Ev(e.Sig, ix, da)
		if e.Addr != hmodel.System {
			s = "from " + e.Addr + " " + s
		}
		g = append(g, s)
	}
	a, b := keep(want), keep(g)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		w.R.Fail("%s: events should be\n%s\nbut are\n%s", what, strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
}

// Balances compares all accounts, the supply and their sum.
func (w *World) Balances() {
	sum := new(big.Int)
	for _, a := range w.Accounts() {
		b := w.N.Balance(a)
		w.R.Need(b.Cmp(w.M.Balance(a)) == 0, "block %d: %s has %s, should have %s", w.H-1, a, b, w.M.Balance(a))
		sum.Add(sum, b)
	}
	s := w.N.Supply()
	w.R.Need(s.Cmp(w.M.Supply) == 0, "block %d: total supply is %s, should be %s", w.H-1, s, w.M.Supply)
	w.R.Need(s.Cmp(sum) == 0, "block %d: total supply is %s, but accounts hold %s", w.H-1, s, sum)
}

// Accounts known to the model and the treasuries.
func (w *World) Accounts() []string {
	seen := map[string]bool{}
	for _, a := range []string{hmodel.System, hmodel.Governance, hmodel.Treasury, hmodel.Public, hmodel.SusFund,
		hmodel.Hoover, hmodel.Eco, hmodel.PlanetNFT, hmodel.Service} {
		seen[a] = true
	}
	for a := range w.M.Bal {
		seen[a] = true
	}
	l := []string{}
	for a := range seen {
		l = append(l, a)
	}
	sort.Strings(l)
	return l
}

// Sees returns the model as a query for the next block sees it.
func (w *World) Sees() *hmodel.M {
	if !w.M.BaseNeeded(w.H) {
		return w.M
	}
	c := w.M.Clone()
	c.Base(w.H, nil, true)
	return c
}

// Query calls a read-only method for the next block.
func (w *World) Query(method string, params map[string]any) (any, error) {
	o := hmodel.Op{P: params}
	v, err := w.N.Query(hmodel.System, method, o.Params(), w.H, TS(w.H))
	if err != nil {
		return nil, err
	}
	bs, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	var out any
	if err := json.Unmarshal(bs, &out); err != nil {
		return nil, err
	}
	return out, nil
}

// Denied tells if a query is refused for missing permission.
func Denied(err error) bool { return scoreresult.AccessDeniedError.Equals(err) }

// Answer checks a query's answer; want is compared as JSON.
func (w *World) Answer(method string, params map[string]any, want any) {
	got, err := w.Query(method, params)
	if want == nil {
		w.R.Need(err != nil, "before block %d: %s(%v) should fail, but answers %v", w.H, method, params, got)
		return
	}
	w.R.NoErr(err, "before block %d: %s(%v) fails", w.H, method, params)
	a, _ := json.Marshal(got)
	b, _ := json.Marshal(Hex(want))
	w.R.Need(string(a) == string(b), "before block %d: %s(%v) answers %s, should be %s", w.H, method, params, a, b)
}

// Hex writes an answer as the API does.
func Hex(v any) any {
	switch x := v.(type) {
	case int64:
		return sim.Num(x)
	case int:
		return sim.Num(int64(x))
	case *big.Int:
		return sim.Hex(x)
	case bool:
		if x {
			return "0x1"
		}
		return "0x0"
	case []byte:
		return fmt.Sprintf("0x%x", x)
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[k] = Hex(e)
		}
		return r
	case []any:
		r := []any{}
		for _, e := range x {
			r = append(r, Hex(e))
		}
		return r
	}
	return v
}
