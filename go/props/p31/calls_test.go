package p31

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"testing"
	"time"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/hworld"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

type apiInput struct {
	Name   string
	Type   string
	Fields []apiInput
}

type api struct {
	Name   string
	Type   string
	Inputs []apiInput
}

func methods(r *kit.Rec, n *sim.Node) []api {
	info, err := n.SM.GetAPIInfo(n.Last().Result(), common.MustNewAddressFromString(system))
	r.NoErr(err, "no API of the system contract")
	x, err := info.ToJSON(module.JSONVersion3)
	r.NoErr(err, "no JSON of the API")
	bs, err := json.Marshal(x)
	r.NoErr(err, "no JSON of the API")
	var l []api
	r.NoErr(json.Unmarshal(bs, &l), "JSON of the API: %s", bs)
	return l
}

func hexKey(g txs.G) string { return "0x" + hex.EncodeToString(hmodel.KeyOf(g.Int(0, 4))) }

// value draws a parameter of the type, or nearly one.
func value(g txs.G, in apiInput, accounts []string) any {
	if g.Chance(1, 12) {
		return g.Value(2)
	}
	if g.Chance(1, 15) {
		return nil
	}
	t := in.Type
	if len(t) > 2 && t[:2] == "[]" {
		l := []any{}
		in.Type = t[2:]
		for i := g.Int(0, 3); i > 0; i-- {
			l = append(l, value(g, in, accounts))
		}
		return l
	}
	switch t {
	case "int":
		if g.Chance(1, 2) {
			return sim.Num(int64(g.Int(0, 10)))
		}
		return txs.Pick[any](g, "0x0", "-0x1", "0x7fffffffffffffff", "0x8000000000000000", "-0x8000000000000000", "0xffffffffffffffffffffffffffffffffffff",
			sim.Hex(hworld.Coins(int64(g.Int(0, 1000)))), "0x", "10", "0X1")
	case "bool":
		return txs.Pick[any](g, "0x0", "0x1", "0x2", "true")
	case "Address":
		return txs.Pick(g, append(accounts, system, "hx00", "cx00000000000000000000000000000000000000dd", "")...)
	case "bytes":
		return txs.Pick[any](g, "0x", "0x00", "0x0", sim.Hex(g.Number()), hexKey(g))
	case "str":
		if g.Chance(1, 2) {
			return txs.Pick(g, "1", "", "invoke", "query", "default", "name", "url", "eth", "secp256k1", "nodePublicKey", "0x1", "ecdsa/secp256k1",
				hexKey(g))
		}
		return g.Str()
	case "struct":
		m := map[string]any{}
		for _, f := range in.Fields {
			if !g.Chance(1, 10) {
				m[f.Name] = value(g, f, accounts)
			}
		}
		return m
	case "dict":
		return map[string]any{g.Str(): g.Value(1)}
	case "list":
		return []any{g.Value(1)}
	}
	return g.Value(1)
}

// Calls of the system contract by anybody with any parameters end with a
// receipt, the same on every node, and queries with an answer or an error.
func TestCalls(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "calls with unusual parameters reach the contract", Quick: 6000, Thorough: 150000, Hang: 100 * time.Second}, func(r *kit.Rec) {
		g := txs.G{T: r.T}
		hg := hworld.G{T: r.T}
		c := hg.Config()
		c.Rev = txs.Pick(g, 0, 2, 3, 4, 5, 6, 7, 7)
		if g.Chance(1, 2) {
			for i := 0; i < 3; i++ {
				n, _ := hmodel.NodeOf(hmodel.KeyOf(i))
				c.Validators = append(c.Validators, n)
			}
		}
		for i := 0; i < 6; i++ {
			c.Accounts[hworld.Owner(i)] = hworld.Coins(1000000)
		}
		w := hworld.New(r, c)
		defer w.N.Close()
		w.Look = hworld.Look{Status: func(hmodel.Op) bool { return false }, Events: func(string) bool { return false }}
		for i := g.Int(1, 4); i > 0; i-- {
			var ops []hmodel.Op
			if w.H == 1 {
				ops = hg.Setup(1)
				if len(c.Validators) > 0 {
					ops = append(ops, hworld.Validators(hg, len(c.Validators))...)
				}
			} else if g.Chance(1, 2) {
				ops = append(ops, hg.Start(w.H))
			}
			for j := g.Int(0, 4); j > 0; j-- {
				ops = append(ops, hg.PlanetOp(w.M, w.H))
			}
			w.Block(ops, nil, true)
		}
		n := w.N
		o := sim.NewNode(sim.Options{Dir: r.TempDir(), DB: n.DB})
		defer o.Close()
		accounts := append([]string{hmodel.Governance, hmodel.PlanetNFT, hmodel.Hoover, hworld.Owner(0), hworld.Owner(1)}, hworld.Users...)
		l := methods(r, n)
		deep := false
		for h, end := w.H, w.H+int64(g.Int(1, 4)); h < end; h++ {
			csi, _ := w.Votes(nil)
			base, err := n.Base(h, hworld.TS(h), csi)
			r.NoErr(err, "no block can be proposed at height %d", h)
			var list []module.Transaction
			if base != nil {
				list = append(list, base)
			}
			for j := g.Int(1, 5); j > 0; j-- {
				f := l[g.Int(0, len(l)-1)]
				from := txs.Pick(g, append([]string{hmodel.Governance, hmodel.Governance}, accounts...)...)
				var params any
				if g.Chance(1, 8) {
					pl := []any{}
					for _, in := range f.Inputs {
						pl = append(pl, value(g, in, accounts))
					}
					params = pl
				} else {
					m := map[string]any{}
					for _, in := range f.Inputs {
						if !g.Chance(1, 15) {
							m[in.Name] = value(g, in, accounts)
						}
					}
					if g.Chance(1, 15) {
						m[g.Str()] = g.Value(1)
					}
					params = m
				}
				if g.Chance(1, 20) {
					params = g.Value(2)
				}
				js, _ := json.Marshal(params)
				r.Step("block %d: %s calls %s(%s)", h, from[:8], f.Name, js)
				if g.Chance(1, 3) {
					a, err := n.Query(system, f.Name, params, h, hworld.TS(h))
					if err == nil {
						_, err = json.Marshal(a)
						r.NoErr(err, "the answer is no JSON")
					}
					continue
				}
				list = append(list, sim.NewTx(from, system, new(big.Int), f.Name, params, hworld.TS(h), int64(j)))
			}
			r.NoErr(o.Resume(n.Last().Result(), n.Last().NextValidators().Hash()), "resume")
			b, err := n.Run(list, h, hworld.TS(h), csi, true)
			r.NoErr(err, "block %d fails", h)
			other, err := o.Reparse(list)
			r.NoErr(err, "reparse")
			b2, err := o.Run(other, h, hworld.TS(h), csi, true)
			r.NoErr(err, "block %d fails on another node", h)
			r.Need(bytes.Equal(b.Result, b2.Result), "block %d has another result on another node", h)
			for i, rc := range b.Receipts {
				r.Label("status %d", rc.Status)
				if base != nil && i == 0 {
					r.Need(rc.Status == module.StatusSuccess, "the base transaction fails")
				}
				deep = deep || rc.Status != module.StatusAccessDenied
			}
			if len(b.Validators) == 0 && len(c.Validators) > 0 {
				r.Label("no validators left")
				return
			}
		}
		if deep {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
