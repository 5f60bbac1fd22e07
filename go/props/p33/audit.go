package p33

import (
	"fmt"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/module"

	"github.com/icon-project/goloop/zzpbt/ref"
	"github.com/icon-project/goloop/zzpbt/txs"
)

// audit says what is wrong with the proof for the block before blk, which blk
// carries: more than two thirds of the validators must have signed that block.
func audit(bm module.BlockManager, blk module.Block) string {
	last, err := bm.GetBlockByHeight(blk.Height() - 1)
	if err != nil {
		return err.Error()
	}
	if last.Height() == 0 {
		return ""
	}
	before, err := bm.GetBlockByHeight(blk.Height() - 2)
	if err != nil {
		return err.Error()
	}
	x, rest, ok := txs.Parse(blk.Votes().Bytes())
	if !ok || len(rest) != 0 || !x.List || len(x.Kids) < 3 {
		return "the votes can't be read"
	}
	vals := before.NextValidators()
	seen := map[string]bool{}
	for _, v := range x.Kids[2].Kids {
		num := func(n int64) *txs.Item {
			y, _, _ := txs.Parse(codec.MustMarshalToBytes(n))
			return y
		}
		m := &txs.Item{List: true, Kids: []*txs.Item{num(last.Height()), x.Kids[0], num(1), {B: last.ID()}, x.Kids[1], v.Kids[0]}}
		sig, err := crypto.ParseSignature(v.Kids[1].B)
		if err != nil {
			return err.Error()
		}
		pk, err := sig.RecoverPublicKey(ref.Sum(m.Bytes()))
		if err != nil {
			return err.Error()
		}
		a := common.NewAccountAddressFromPublicKey(pk)
		if vals.IndexOf(a) < 0 {
			return fmt.Sprintf("a vote of %v, who is no validator", a)
		}
		seen[a.String()] = true
	}
	if 3*len(seen) <= 2*vals.Len() {
		return fmt.Sprintf("%d votes of %d validators", len(seen), vals.Len())
	}
	return ""
}
