package p35

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/icon-project/goloop/zzpbt/hmodel"
	"github.com/icon-project/goloop/zzpbt/ref"
	"github.com/icon-project/goloop/zzpbt/sim"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// votes puts another proof into a block.
func (l *lab) votes(b *blk, o []ballot) {
	b.bd.Kids[2] = str(l.proof(o).Bytes())
	b.hd.Kids[fTime] = num(median(o))
}

// twin is a copy of a block to be changed.
func twin(b *blk) *blk { return &blk{up: b.up, hd: b.hd.Copy(), bd: b.bd.Copy()} }

func (b *blk) normals() *txs.Item {
	x := b.bd.Kids[1]
	x.Nil, x.List = false, true
	return x
}

// otherwise is another value of the kind of b.
func (l *lab) otherwise(b []byte, f int) []byte {
	var o [][]byte
	for _, x := range l.all {
		if f < len(x.hd.Kids) {
			o = append(o, x.hd.Kids[f].B)
		}
	}
	o = append(o, ref.Sum([]byte{byte(l.g.Int(0, 9))}), nil)
	if len(b) > 0 {
		c := append([]byte{}, b...)
		c[l.g.Int(0, len(c)-1)] ^= 1 << l.g.Int(0, 7)
		o = append(o, c, b[:len(b)-1], append(append([]byte{}, b...), 0))
	}
	return o[l.g.Int(0, len(o)-1)]
}

// forge makes another block of b, whose proof is made of o. It must be refused
// unless it comes out good.
func (l *lab) forge(b *blk, o []ballot) (f *blk, what string, good bool) {
	g := l.g
	up := b.up
	f = twin(b)
	o = append([]ballot{}, o...)
	set := func(k int, x *txs.Item, name string) {
		what = "another " + name
		f.hd.Kids[k] = x
	}
	bin := func(k int, name string) {
		x := f.hd.Kids[k]
		v := l.otherwise(x.B, k)
		y := &txs.Item{B: v, Nil: v == nil}
		set(k, y, name)
		good = bytes.Equal(x.Bytes(), y.Bytes())
	}
	vs := voters(up)
	n := len(vs)
	some := func() []ballot { // more than two thirds
		for {
			if x := l.ballots(up); len(x) > 0 {
				return x
			}
		}
	}
	k := g.Int(0, 28)
	if n == 0 && k >= 9 && k < 20 {
		k = g.Int(0, 8)
	}
	switch k {
	case 0:
		set(fVersion, num(txs.Pick[int64](g, 0, 1, 3)), "version")
	case 1:
		set(fHeight, num(b.h+txs.Pick[int64](g, -1, 1, 2)), "height")
	case 2:
		if b.h == 1 {
			return l.forge(b, o)
		}
		set(fTime, num(b.ts+txs.Pick[int64](g, -1, 1, 1000, up.ts-b.ts)), "time")
		if int64Of(f.hd.Kids[fTime]) == b.ts {
			return l.forge(b, o)
		}
	case 3, 4:
		bin(fResult, "result")
	case 5:
		bin(fNext, "list of validators")
	case 6:
		bin(fBloom, "bloom filter")
	case 7:
		bin(fPrev, "parent")
	case 8:
		if len(f.hd.Kids) > fFilter {
			bin(fFilter, "filter")
		} else {
			v := txs.Pick(g, []byte{1}, []byte{0x80}, []byte{0, 1})
			f.hd.Kids = append(f.hd.Kids, str(v))
			what = "a filter"
		}
	case 9: // too few
		o = some()
		o = o[:min(len(o), g.Int(0, n*2/3))]
		what = fmt.Sprintf("%d votes of %d validators", len(o), n)
		l.votes(f, o)
		if len(o) == 0 {
			f.hd.Kids[fTime] = num(b.ts)
		}
	case 10: // too many by repeating
		o = some()
		o = o[:min(len(o), g.Int(1, n*2/3+1))]
		for x := g.Int(1, n); x > 0; x-- {
			v := o[g.Int(0, len(o)-1)]
			if g.Chance(1, 2) {
				v.ts++
				v.signed++
			}
			o = append(o, v)
		}
		what = "repeated votes"
		l.votes(f, o)
	case 11: // with votes of others
		o = some()
		if g.Chance(2, 3) {
			o = o[:min(len(o), max(1, n*2/3))]
		}
		in := map[string]bool{}
		for _, v := range vs {
			in[v] = true
		}
		var out []string
		for i := 0; i < 8; i++ {
			if a := txs.Address(i); !in[a] {
				out = append(out, a)
			}
		}
		for x := g.Int(1, len(out)); x > 0; x-- {
			v := o[0]
			v.who = out[x-1]
			o = append(o, v)
		}
		o = shuffle(g, o)
		what = "votes of others"
		l.votes(f, o)
	case 12, 13, 14, 15, 16, 17: // votes for something else
		o = some()
		i := g.Int(0, len(o)-1)
		at := func(f func(v *ballot)) {
			if g.Chance(1, 3) {
				for j := range o {
					f(&o[j])
				}
				return
			}
			f(&o[i])
		}
		x := l.proof(o)
		switch k {
		case 12:
			what = "votes for another height"
			at(func(v *ballot) { v.height += int64(g.Int(0, 1)*2 - 1) })
		case 13:
			what = "votes for another round"
			was := o[0].round
			at(func(v *ballot) { v.round = was + 1 })
		case 14:
			what = "votes of the first kind"
			at(func(v *ballot) { v.kind = 0 })
		case 15:
			id := up.up.id
			for _, y := range l.all {
				if y.h == up.h && !bytes.Equal(y.id, up.id) && g.Chance(2, 3) {
					id = y.id
				}
			}
			what = "votes for another block"
			at(func(v *ballot) { v.block = id })
		case 16:
			what = "votes for other parts"
			p := o[0].part.Copy()
			if g.Chance(1, 2) {
				p.Kids[0] = num(int64Of(p.Kids[0]) + 1)
			} else {
				p.Kids[1] = str(ref.Sum([]byte{9}))
			}
			at(func(v *ballot) { v.part = p })
		default:
			what = "votes at another time"
			at(func(v *ballot) { v.signed++ })
		}
		y := l.proof(o)
		y.Kids[0], y.Kids[1] = x.Kids[0], x.Kids[1]
		f.bd.Kids[2] = str(y.Bytes())
		f.hd.Kids[fTime] = num(median(o))
	case 18: // not after the parent
		o = some()
		for i := range o {
			o[i].ts = up.ts - int64(g.Int(0, 2))*int64(g.Int(0, 1000))
			o[i].signed = o[i].ts
		}
		what = "a time not after the parent's"
		l.votes(f, o)
	case 19: // other good votes
		o = some()
		l.votes(f, o)
		what, good = "other votes", l.only(f)
	case 20: // somebody else's
		what, good = "another proposer", true
		f.hd.Kids[fProposer] = str(l.who[txs.Address(g.Int(0, 7))].Address().Bytes())
	case 21: // another list
		x := f.normals()
		if len(x.Kids) < 2 || b.h == 1 {
			return l.forge(b, o)
		}
		c := g.Int(1, len(x.Kids)-1)
		x.Kids = append(x.Kids[:c:c], x.Kids[c+1:]...)
		what, good = "without a transaction", true
	case 22:
		x := f.normals()
		what = "a transaction signed by nobody"
		what0 := ""
		bs := l.transfer(b.ts, func(m map[string]any) {
			switch g.Int(0, 4) {
			case 0:
				m["value"], what0 = "0x77", "value"
			case 1:
				m["to"], what0 = txs.Address(11), "to"
			case 2:
				m["nonce"], what0 = "0x7777", "nonce"
			case 3:
				m["nid"], what0 = "0x2", "nid"
			default:
				for i := 0; i < 8; i++ {
					if m["from"] != txs.Address(i) {
						txs.Signed(txs.Wallet(i), m)
						m["from"] = txs.Address((i + 1) % 8)
						if l.who[m["from"].(string)] != nil {
							txs.Signed(txs.Wallet(i), m)
						}
						break
					}
				}
				what0 = "from"
			}
		})
		what += " (" + what0 + ")"
		x.Kids = append(x.Kids, str(bs))
	case 23:
		x := f.normals()
		what = "a transaction for another network"
		x.Kids = append(x.Kids, str(l.transfer(b.ts, func(m map[string]any) {
			m["nid"] = "0x2"
			delete(m, "signature")
			for i := 0; i < 8; i++ {
				if txs.Address(i) == m["from"] {
					txs.Signed(txs.Wallet(i), m)
				}
			}
		})))
	case 24:
		x := f.normals()
		var old [][]byte
		for y := b; y != nil && y.h > 0; y = y.up {
			for _, t := range y.bd.Kids[1].Kids {
				if isTransfer(t.B) && y.ts > b.ts-int64(250e6) {
					old = append(old, t.B)
				}
			}
		}
		if len(old) == 0 {
			return l.forge(b, o)
		}
		x.Kids = append(x.Kids, str(old[g.Int(0, len(old)-1)]))
		what = "a transaction again"
	case 25:
		x := f.normals()
		x.Kids = append(x.Kids, str(l.transfer(b.ts+txs.Pick[int64](g, -1, 1)*int64(g.Int(300000001, 900000000)), nil)))
		what = "a transaction of another time"
	case 26, 27:
		what = "its parts written otherwise"
		switch g.Int(0, 5) {
		case 0: // a filter of no bits
			if len(f.hd.Kids) <= fFilter {
				f.hd.Kids = append(f.hd.Kids, txs.Pick(g, str([]byte{}), &txs.Item{Nil: true}))
				break
			}
			fallthrough
		case 1: // numbers with zeros ahead
			x := f.hd.Kids[txs.Pick(g, fVersion, fHeight, fTime)]
			if z := g.Int(1, 2); len(x.B)+z <= 8 {
				x.B = append(make([]byte, z), x.B...)
			}
		case 2: // missing and empty ones
			i := txs.Pick(g, fProposer, fBloom, fResult, fNext, fPrev)
			if x := f.hd.Kids[i]; len(x.B) == 0 {
				x.Nil = !x.Nil
			}
		case 3:
			f.bd.Kids = append(f.bd.Kids, txs.Pick(g, str([]byte{}), &txs.Item{Nil: true}, str([]byte{1})))
		case 4:
			f.hd.Kids = append(f.hd.Kids, str([]byte{}), str([]byte{1}))
		default:
			f = l.fix(f)
			f.raw = append(f.raw, txs.Pick(g, []byte{0}, f.raw)...)
			return f, what, false
		}
	default:
		x := f.normals()
		if b.h == 1 {
			return l.forge(b, o)
		}
		x.Kids = append(x.Kids, str(sim.NewTx(hmodel.Governance, txs.Address(1), big.NewInt(0), "", nil, b.ts, int64(1000000+g.Int(0, 9))).Bytes()))
		what, good = "one more transaction", true
	}
	return l.fix(f), what, good
}

// only tells if all transactions still fit the time of the block.
func (l *lab) only(f *blk) bool {
	ts := int64Of(f.hd.Kids[fTime])
	return ts > f.up.ts
}

func isTransfer(b []byte) bool { return len(b) > 0 && b[0] >= 0xc0 }
