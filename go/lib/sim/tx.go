package sim

import (
	"encoding/json"
	"math/big"
	"sync"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/transaction"
)

// Tx is an unsigned transaction executed by the node's own transaction
// handler, so that any account — a contract too — can be its sender.
type Tx struct {
	j  txJSON
	bs []byte
}

type txJSON struct {
	Type      string           `json:"type"`
	From      *common.Address  `json:"from"`
	To        *common.Address  `json:"to"`
	Value     *common.HexInt   `json:"value"`
	StepLimit *common.HexInt   `json:"stepLimit"`
	TS        common.HexInt64  `json:"timestamp"`
	Nonce     *common.HexInt64 `json:"nonce"`
	DataType  *string          `json:"dataType,omitempty"`
	Data      json.RawMessage  `json:"data,omitempty"`
}

const txType = "pbt"

// NewTx makes a transaction; an empty method makes a plain transfer.
func NewTx(from, to string, value *big.Int, method string, params any, ts, nonce int64) module.Transaction {
	registerTx()
	t := &Tx{}
	t.j.Type = txType
	t.j.From = common.MustNewAddressFromString(from)
	t.j.To = common.MustNewAddressFromString(to)
	t.j.Value = new(common.HexInt).SetValue(value)
	t.j.StepLimit = common.NewHexInt(1 << 40)
	t.j.TS.Value = ts
	t.j.Nonce = &common.HexInt64{Value: nonce}
	if method != "" {
		dt := contract.DataTypeCall
		t.j.DataType = &dt
		data := map[string]any{"method": method}
		if params != nil {
			data["params"] = params
		}
		t.j.Data, _ = json.Marshal(data)
	}
	js, err := json.Marshal(&t.j)
	if err != nil {
		panic(err)
	}
	tx, err := transaction.NewTransactionFromJSON(js)
	if err != nil {
		panic(err)
	}
	return tx
}

func (t *Tx) Bytes() []byte                                  { return t.bs }
func (t *Tx) Hash() []byte                                   { return crypto.SHA3Sum256(t.bs) }
func (t *Tx) ID() []byte                                     { return crypto.SHA3Sum256(t.bs) }
func (t *Tx) Group() module.TransactionGroup                 { return module.TransactionGroupNormal }
func (t *Tx) From() module.Address                           { return t.j.From }
func (t *Tx) To() module.Address                             { return t.j.To }
func (t *Tx) Verify() error                                  { return nil }
func (t *Tx) Version() int                                   { return module.TransactionVersion3 }
func (t *Tx) ValidateNetwork(int) bool                       { return true }
func (t *Tx) PreValidate(state.WorldContext, bool) error     { return nil }
func (t *Tx) Timestamp() int64                               { return t.j.TS.Value }
func (t *Tx) Nonce() *big.Int                                { return big.NewInt(t.j.Nonce.Value) }
func (t *Tx) IsSkippable() bool                              { return false }
func (t *Tx) ToJSON(module.JSONVersion) (interface{}, error) { return &t.j, nil }

func (t *Tx) GetHandler(cm contract.ContractManager) (transaction.Handler, error) {
	return transaction.NewHandler(cm, t.Group(), t.j.From, t.j.To, t.j.Value.Value(), t.j.StepLimit.Value(),
		t.j.DataType, t.j.Data)
}

var once sync.Once

// Register makes the stand-in transactions known.
func Register() { registerTx() }

func registerTx() {
	once.Do(func() {
		transaction.RegisterFactory(&transaction.Factory{
			Priority:  4,
			CheckJSON: func(m map[string]interface{}) bool { return m["type"] == txType },
			ParseJSON: func(bs []byte, _ map[string]interface{}, _ bool) (transaction.Transaction, error) {
				t := &Tx{bs: append([]byte(nil), bs...)}
				if err := json.Unmarshal(bs, &t.j); err != nil {
					return nil, err
				}
				return t, nil
			},
		})
	})
}
