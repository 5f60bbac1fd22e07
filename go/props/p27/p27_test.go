package p27

import (
	"testing"

	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
)

// methods of the rules of planets and their rewards.
var methods = map[string]bool{}

func init() {
	for _, m := range []string{"setUSDTPrice", "startRewardIssue", "addPlanetManager", "removePlanetManager", "registerPlanet",
		"unregisterPlanet", "setPlanetOwner", "reportPlanetWork", "claimPlanetReward", "setPrivateClaimableRate", "withdrawLostTo"} {
		methods[m] = true
	}
}

var events = map[string]bool{
	"RewardOffered(int,int,int,int)": true, "RewardClaimed(Address,int,int,int)": true, "LostDeposited(int,int,str)": true,
	"LostWithdrawn(Address,int)": true, "Issued(int,int,int)": true, "TermStarted(int,int,int)": true,
	"HooverRefilled(int,int,int)": true,
}

type dict = map[string]any

func reward(m *hmodel.M, id int64) dict {
	x := m.Reward(id)
	return dict{"id": id, "total": x.Total, "remain": x.Current, "claimable": m.Claimable(id)}
}

// ask compares the answers to queries with the model.
func ask(g hworld.G, w *hworld.World, all bool) {
	m, h := w.Sees(), w.H
	some := func() bool { return all || g.Chance(1, 4) }
	if some() {
		d := dict{"height": h, "termPeriod": m.TermPeriod, "issueReductionCycle": m.Cycle}
		if m.IssueStart > 0 {
			d["issueStart"] = m.IssueStart
		}
		if t, _ := m.TermOf(h); t >= 0 {
			d["termSequence"] = t
		}
		w.Answer("getIssueInfo", nil, d)
	}
	if some() {
		w.Answer("getUSDTPrice", nil, m.USDT)
	}
	if some() {
		if t, _ := m.TermOf(h); t >= 0 {
			w.Answer("getRewardInfo", nil, dict{"height": h, "termSequence": t, "rewardPerActivePlanet": m.PerPlanet()})
		} else {
			w.Answer("getRewardInfo", nil, nil)
		}
	}
	if some() {
		w.Answer("getPrivateClaimableRate", nil, dict{"numerator": m.Num, "denominator": m.Den})
	}
	if some() && m.Rev >= 2 {
		w.Answer("getLost", nil, m.Lost)
	}
	for _, u := range hworld.Users[:3] {
		if some() {
			yes := false
			for _, x := range m.Managers {
				yes = yes || x == u
			}
			w.Answer("isPlanetManager", dict{"address": u}, yes)
		}
	}
	ids := append(hworld.PlanetIDs(m), g.ID())
	var infos []any
	var seq []int64
	for _, id := range ids {
		p, ok := m.Planets[id]
		if some() {
			if ok {
				w.Answer("getPlanetInfo", dict{"id": id}, dict{"isPrivate": p.Private, "isCompany": p.Company, "owner": p.Owner,
					"usdtPrice": p.USDT, "havahPrice": p.Price, "height": p.Height})
				d := reward(m, id)
				d["height"] = h
				w.Answer("getRewardInfoOf", dict{"id": id}, d)
			} else {
				w.Answer("getPlanetInfo", dict{"id": id}, nil)
				w.Answer("getRewardInfoOf", dict{"id": id}, nil)
			}
		}
		seq = append(seq, id)
		if ok {
			infos = append(infos, reward(m, id))
		} else {
			infos = append(infos, nil)
		}
	}
	if m.Rev >= 2 {
		w.Answer("getRewardInfosOf", dict{"ids": seq}, dict{"height": h, "rewardInfos": infos})
	}
}

// Planets, their rewards, and claims follow the rules over a whole history.
func TestPlanets(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "rewards are offered and claimed", Quick: 2000, Thorough: 30000}, func(r *kit.Rec) {
		g := hworld.G{T: r.T}
		w := hworld.New(r, g.Config())
		defer w.N.Close()
		w.Look = hworld.Look{Status: func(o hmodel.Op) bool { return methods[o.Method] }, Events: func(s string) bool { return events[s] }}
		for n := g.Int(5, 40); n > 0; n-- {
			l := []hmodel.Op{}
			if w.H == 1 {
				l = g.Setup(1)
			}
			for i := g.Int(0, 3); i > 0; i-- {
				switch k := g.Int(0, 19); {
				case k < 1:
					l = append(l, g.Transfer(w.M))
				case k < 10:
					l = append(l, g.PlanetOp(w.M, w.H))
				case k < 14:
					l = append(l, g.Report(w.M, w.H))
				case k < 18:
					l = append(l, g.Claim(w.M, w.H))
				case k < 19 || w.M.IssueStart == 0:
					l = append(l, g.Start(w.H))
				default:
					l = append(l, g.Revision(w.M))
				}
			}
			w.Block(l, nil, g.Chance(1, 2))
			ask(g, w, n == 1)
		}
		w.Labels()
		if w.Seen["RewardOffered"] > 0 && w.Seen["RewardClaimed"] > 0 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
