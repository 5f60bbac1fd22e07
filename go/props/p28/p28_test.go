package p28

import (
	"testing"

	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
)

var methods = map[string]bool{}

func init() {
	for _, m := range []string{"setBlockVoteCheckParameters", "setActiveValidatorCount", "registerValidator", "unregisterValidator",
		"setNodePublicKey", "enableValidator", "setValidatorInfo", "openBTPNetwork", "setRevision"} {
		methods[m] = true
	}
}

var events = map[string]bool{
	"Decentralized(int)": true, "ActiveValidatorRemoved(Address,Address,str)": true, "ActiveValidatorAdded(Address,Address)": true,
	"ActiveValidatorCountChanged(int,int)": true, "ActiveValidatorPenalized(Address,Address)": true,
	"BTPNetworkTypeActivated(str,int)": true, "BTPNetworkOpened(int,int)": true,
}

type dict = map[string]any

func grade(v hmodel.Validator) string {
	if v.Main {
		return "main"
	}
	return "sub"
}

func info(v hmodel.Validator) dict {
	return dict{"owner": v.Owner, "nodePublicKey": v.Key, "node": v.Node, "grade": grade(v), "name": v.Name, "url": v.URL}
}

func status(v hmodel.Validator) dict {
	flags := 0
	if v.Disabled {
		flags |= 1
	}
	if v.Disqualified {
		flags |= 2
	}
	return dict{"flags": flags, "nonVotes": v.NonVotes, "enableCount": 3 - v.Enables}
}

func join(a, b dict) dict {
	r := dict{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

func list(l []string) []any {
	r := []any{}
	for _, s := range l {
		r = append(r, s)
	}
	return r
}

func ask(g hworld.G, w *hworld.World, all bool) {
	m, h := w.Sees(), w.H
	some := func() bool { return all || g.Chance(1, 5) }
	if m.Rev < 4 {
		return
	}
	if some() {
		if m.NS.Decentralized {
			t, _ := m.TermOf(h)
			w.Answer("getNetworkStatus", nil, dict{"mode": 1, "blockVoteCheckPeriod": m.NS.Period, "nonVoteAllowance": m.NS.Allowance,
				"activeValidatorCount": m.NS.AVC, "height": h, "termStart": m.IssueStart + t*m.TermPeriod})
		} else {
			w.Answer("getNetworkStatus", nil, nil)
		}
	}
	if some() {
		w.Answer("getActiveValidatorCount", nil, m.AVC)
	}
	if some() {
		w.Answer("getBlockVoteCheckParameters", nil, dict{"height": h, "blockVoteCheckPeriod": m.Period, "nonVoteAllowance": m.Allowance})
	}
	for i := 0; i < 12; i++ {
		if !some() {
			continue
		}
		o := hworld.Owner(i)
		v, ok := m.Vals[o]
		if ok {
			w.Answer("getValidatorInfo", dict{"owner": o}, join(info(v), dict{"height": h}))
			w.Answer("getValidatorStatus", dict{"owner": o}, join(status(v), dict{"height": h}))
		} else {
			w.Answer("getValidatorInfo", dict{"owner": o}, nil)
			w.Answer("getValidatorStatus", dict{"owner": o}, nil)
		}
	}
	lists := map[string][]string{"main": m.Main, "sub": m.Sub, "all": append(append([]string{}, m.Main...), m.Sub...)}
	for _, gr := range []string{"main", "sub", "all"} {
		if some() {
			w.Answer("getValidatorsOf", dict{"grade": gr}, dict{"height": h, "grade": gr, "validators": list(lists[gr])})
		}
	}
	for _, dt := range []string{"info", "status", "all"} {
		one := func(o string) any {
			v := m.Vals[o]
			switch dt {
			case "info":
				return info(v)
			case "status":
				return join(status(v), dict{"owner": o})
			}
			return join(info(v), status(v))
		}
		many := func(l []string) any {
			r := []any{}
			for _, o := range l {
				r = append(r, one(o))
			}
			return dict{"height": h, "validators": r}
		}
		if some() {
			w.Answer("getValidatorsInfo", dict{"dataType": dt}, many(lists["all"]))
		}
		if some() {
			w.Answer("getDisqualifiedValidatorsInfo", dict{"dataType": dt}, many(m.Disq))
		}
	}
	if some() {
		w.Answer("getValidatorsOf", dict{"grade": hworld.Pick(g, "", "Main", "none")}, nil)
		w.Answer("getValidatorsInfo", dict{"dataType": hworld.Pick(g, "", "Info", "none")}, nil)
	}
}

// world with validators, all of them registered in the first block.
func world(g hworld.G, r *kit.Rec) (*hworld.World, []hmodel.Op) {
	c := g.Config()
	c.Rev = hworld.Pick(g, 4, 5, 5, 6, 7)
	c.TermPeriod = int64(hworld.Pick(g, 2, 3, 4, 5, 7))
	for i := 0; i < 12; i++ {
		c.Accounts[hworld.Owner(i)] = hworld.Coins(1000000)
	}
	n := g.Int(1, 7)
	for i := 0; i < n; i++ {
		node, _ := hmodel.NodeOf(hmodel.KeyOf(i))
		c.Validators = append(c.Validators, node)
	}
	w := hworld.New(r, c)
	return w, hworld.Validators(g, n)
}

// The validator set follows the rules of registration, terms, votes and penalties.
func TestValidators(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "the active set changes in a decentralized network", Quick: 2000, Thorough: 30000}, func(r *kit.Rec) {
		g := hworld.G{T: r.T}
		w, l := world(g, r)
		defer w.N.Close()
		w.Look = hworld.Look{Status: func(o hmodel.Op) bool { return methods[o.Method] }, Events: func(s string) bool { return events[s] }, Set: true}
		lazy := g.Int(0, 3)
		for n := g.Int(5, 40); n > 0; n-- {
			if w.H > 1 {
				l = nil
				for i := g.Int(0, 3); i > 0; i-- {
					switch k := g.Int(0, 39); {
					case k < 1:
						l = append(l, g.Revision(w.M))
					case k < 2 && w.M.IssueStart == 0:
						l = append(l, g.Start(w.H))
					default:
						l = append(l, g.ValidatorOp(w.M, 0))
					}
				}
				l = hworld.KeepMain(w, l)
			}
			yes := []bool{}
			for range w.M.Set {
				yes = append(yes, !g.Chance(lazy, 6))
			}
			w.Block(l, yes, g.Chance(1, 2))
			if len(w.M.Set) == 0 {
				break
			}
			ask(g, w, n == 1)
		}
		w.Labels()
		if w.Seen["Decentralized"] > 0 && w.Seen["ActiveValidatorAdded"]+w.Seen["ActiveValidatorRemoved"] > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
