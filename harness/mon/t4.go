package main

import (
	"crypto/ecdsa"
	"fmt"
	abci "github.com/cometbft/cometbft/abci/types"
	"math/big"
	"math/rand"
	"strings"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifkit"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	monitors["T04"] = monT04
	monitors["T05"] = monT05
	monitors["T06"] = monT06
	monitors["B06"] = monB06
}

// carrier is a cosmos transaction taken apart.
type carrier struct {
	body txtypes.TxBody
	auth txtypes.AuthInfo
	sigs [][]byte
}

func openTx(bz []byte) *carrier {
	var raw txtypes.TxRaw
	must(proto.Unmarshal(bz, &raw))
	c := &carrier{sigs: raw.Signatures}
	must(proto.Unmarshal(raw.BodyBytes, &c.body))
	must(proto.Unmarshal(raw.AuthInfoBytes, &c.auth))
	return c
}

func (c *carrier) bytes() []byte {
	b, err := proto.Marshal(&c.body)
	must(err)
	a, err := proto.Marshal(&c.auth)
	must(err)
	bz, err := proto.Marshal(&txtypes.TxRaw{BodyBytes: b, AuthInfoBytes: a, Signatures: c.sigs})
	must(err)
	return bz
}

func packAny(m proto.Message) *codectypes.Any {
	a, err := codectypes.NewAnyWithValue(m)
	must(err)
	return a
}

func halfN() *big.Int { return crypto.S256().Params().N }

// forgery is one way of changing a carried transaction.
type forgery struct {
	name string
	do   func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool
}

func editCall(c *carrier, call func(*evmtypes.MsgCall), create func(*evmtypes.MsgCreate)) bool {
	switch c.body.Messages[0].TypeUrl {
	case "/minievm.evm.v1.MsgCall":
		if call == nil {
			return false
		}
		var m evmtypes.MsgCall
		must(m.Unmarshal(c.body.Messages[0].Value))
		call(&m)
		c.body.Messages[0] = packAny(&m)
	case "/minievm.evm.v1.MsgCreate":
		if create == nil {
			return false
		}
		var m evmtypes.MsgCreate
		must(m.Unmarshal(c.body.Messages[0].Value))
		create(&m)
		c.body.Messages[0] = packAny(&m)
	default:
		return false
	}
	return true
}

func sigEdit(f func(sig []byte) []byte) func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
	return func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.sigs[0] = f(append([]byte{}, c.sigs[0]...))
		return true
	}
}

var forgeries = []forgery{
	{"sender", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		return editCall(c, func(m *evmtypes.MsgCall) { m.Sender = b.Bech() }, func(m *evmtypes.MsgCreate) { m.Sender = b.Bech() })
	}},
	{"sender-and-key", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.SignerInfos[0].PublicKey = packAny(b.Key.PubKey().(proto.Message))
		c.auth.SignerInfos[0].Sequence = x.c.Seq(b.Acc)
		return editCall(c, func(m *evmtypes.MsgCall) { m.Sender = b.Bech() }, func(m *evmtypes.MsgCreate) { m.Sender = b.Bech() })
	}},
	{"recipient", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		return editCall(c, func(m *evmtypes.MsgCall) { m.ContractAddr = x.freshAddr().Hex() }, nil)
	}},
	{"recipient-cosmos", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		return editCall(c, func(m *evmtypes.MsgCall) { m.ContractAddr = sdk.AccAddress(x.freshAddr().Bytes()).String() }, nil)
	}},
	{"recipient-long", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		return editCall(c, func(m *evmtypes.MsgCall) {
			m.ContractAddr = "0x" + strings.Repeat("ab", 12) + strings.TrimPrefix(m.ContractAddr, "0x")
		}, nil)
	}},
	{"data", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		return editCall(c, func(m *evmtypes.MsgCall) { m.Input += "00" }, func(m *evmtypes.MsgCreate) { m.Code += "00" })
	}},
	{"data-cut", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if len(m.Eth.Data()) == 0 {
			return false
		}
		return editCall(c, func(m *evmtypes.MsgCall) { m.Input = m.Input[:len(m.Input)-2] }, func(m *evmtypes.MsgCreate) { m.Code = m.Code[:len(m.Code)-2] })
	}},
	{"value", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		d := math.NewInt(int64(1 + x.rng.Intn(3)))
		if m.Eth.Value().Sign() > 0 && x.rng.Intn(2) == 0 {
			d = math.NewInt(-1)
		}
		return editCall(c, func(m *evmtypes.MsgCall) { m.Value = m.Value.Add(d) }, func(m *evmtypes.MsgCreate) { m.Value = m.Value.Add(d) })
	}},
	{"access-list", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		al := func(l []evmtypes.AccessTuple) []evmtypes.AccessTuple {
			if len(l) > 0 && x.rng.Intn(2) == 0 {
				return l[1:]
			}
			return append(l, evmtypes.AccessTuple{Address: x.freshAddr().Hex(), StorageKeys: []string{common.Hash{9}.Hex()}})
		}
		return editCall(c, func(m *evmtypes.MsgCall) { m.AccessList = al(m.AccessList) }, func(m *evmtypes.MsgCreate) { m.AccessList = al(m.AccessList) })
	}},
	{"access-keys", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if len(m.Eth.AccessList()) == 0 {
			return false
		}
		al := func(l []evmtypes.AccessTuple) []evmtypes.AccessTuple {
			if len(l[0].StorageKeys) > 0 {
				l[0].StorageKeys = l[0].StorageKeys[1:]
			} else {
				l[0].StorageKeys = []string{common.Hash{1}.Hex()}
			}
			return l
		}
		return editCall(c, func(m *evmtypes.MsgCall) { m.AccessList = al(m.AccessList) }, func(m *evmtypes.MsgCreate) { m.AccessList = al(m.AccessList) })
	}},
	{"call-to-create", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		var out proto.Message
		ok := editCall(c, func(m *evmtypes.MsgCall) {
			out = &evmtypes.MsgCreate{Sender: m.Sender, Code: m.Input, Value: m.Value, AccessList: m.AccessList}
		}, func(m *evmtypes.MsgCreate) {
			out = &evmtypes.MsgCall{Sender: m.Sender, ContractAddr: common.Address{}.Hex(), Input: m.Code, Value: m.Value, AccessList: m.AccessList}
		})
		c.body.Messages[0] = packAny(out)
		return ok
	}},
	{"create2", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		var out proto.Message
		if !editCall(c, nil, func(m *evmtypes.MsgCreate) {
			out = &evmtypes.MsgCreate2{Sender: m.Sender, Code: m.Code, Value: m.Value, AccessList: m.AccessList, Salt: 7}
		}) {
			return false
		}
		c.body.Messages[0] = packAny(out)
		return true
	}},
	{"second-message", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.body.Messages = append(c.body.Messages, packAny(banktypes.NewMsgSend(m.Signers[0].Acc, b.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))))
		return true
	}},
	{"same-message-twice", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.body.Messages = append(c.body.Messages, c.body.Messages[0])
		return true
	}},
	{"other-message", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.body.Messages[0] = packAny(banktypes.NewMsgSend(m.Signers[0].Acc, b.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1))))
		return true
	}},
	{"no-message", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool { c.body.Messages = nil; return true }},
	{"type", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		o := fmt.Sprintf(`"type":%d`, m.Eth.Type())
		n := fmt.Sprintf(`"type":%d`, []int{0, 1, 2, 3, 4}[x.rng.Intn(5)])
		c.body.Memo = strings.Replace(c.body.Memo, o, n, 1)
		return o != n
	}},
	{"fee-cap", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		fc := m.Eth.GasFeeCap()
		n := new(big.Int).Add(fc, big.NewInt(1))
		c.body.Memo = strings.Replace(c.body.Memo, fmt.Sprintf(`"gas_fee_cap":"%s"`, fc), fmt.Sprintf(`"gas_fee_cap":"%s"`, n), 1)
		if x.rng.Intn(2) == 0 { // with the fee to match
			f := evmtypes.FromEthersUnit(x.feeDec(), new(big.Int).Mul(n, new(big.Int).SetUint64(m.Gas)))
			c.auth.Fee.Amount = sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, math.NewIntFromBigInt(f.Add(f, big.NewInt(1)))))
		}
		return true
	}},
	{"tip-cap", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if m.Eth.Type() != 2 {
			return false
		}
		t := m.Eth.GasTipCap()
		c.body.Memo = strings.Replace(c.body.Memo, fmt.Sprintf(`"gas_tip_cap":"%s"`, t), fmt.Sprintf(`"gas_tip_cap":"%s"`, new(big.Int).Add(t, big.NewInt(1))), 1)
		return true
	}},
	{"memo-field", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.body.Memo = strings.Replace(c.body.Memo, "{", `{"note":"x",`, 1)
		return true
	}},
	{"memo-gone", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool { c.body.Memo = ""; return true }},
	{"timeout", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.body.TimeoutHeight = uint64(x.c.Height) + 50
		return true
	}},
	{"extension", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.body.ExtensionOptions = append(c.body.ExtensionOptions, packAny(&banktypes.MsgSend{}))
		return true
	}},
	{"fee", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if len(c.auth.Fee.Amount) == 0 {
			c.auth.Fee.Amount = sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 1))
			return true
		}
		d := []int64{1, 2, -1}[x.rng.Intn(3)]
		c.auth.Fee.Amount[0].Amount = c.auth.Fee.Amount[0].Amount.AddRaw(d)
		return true
	}},
	{"fee-denom", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if len(c.auth.Fee.Amount) == 0 {
			c.auth.Fee.Amount = sdk.NewCoins(verifkit.Coin("uusdc", 1))
			return true
		}
		c.auth.Fee.Amount[0].Denom = "uusdc"
		c.auth.Fee.Amount[0].Amount = math.NewInt(1)
		return true
	}},
	{"fee-coins", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.Fee.Amount = sdk.Coins(c.auth.Fee.Amount).Add(verifkit.Coin("uusdc", 1))
		return true
	}},
	{"no-fee", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if len(c.auth.Fee.Amount) == 0 {
			return false
		}
		c.auth.Fee.Amount = nil
		return true
	}},
	{"gas", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.Fee.GasLimit += uint64([]int64{1, 100000, -1}[x.rng.Intn(3)])
		return true
	}},
	{"payer", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.Fee.Payer = b.Bech()
		return true
	}},
	{"granter", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.Fee.Granter = x.users[0].Bech() // grants to everybody
		return m.Signers[0] != x.users[0]
	}},
	{"tip", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.Tip = &txtypes.Tip{Amount: sdk.NewCoins(verifkit.Coin("uusdc", 1)), Tipper: b.Bech()} //nolint
		return false                                                                                 // ignored by the node
	}},
	{"sequence", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.SignerInfos[0].Sequence += uint64(1 + x.rng.Intn(2))
		return true
	}},
	{"key", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.SignerInfos[0].PublicKey = packAny(b.Key.PubKey().(proto.Message))
		return true
	}},
	{"key-kind", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		k := m.Signers[0].Key.PubKey()
		c.auth.SignerInfos[0].PublicKey = packAny(&secp256k1.PubKey{Key: k.Bytes()})
		return true
	}},
	{"key-gone", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.SignerInfos[0].PublicKey = nil
		return true
	}},
	{"mode", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		mode := []signing.SignMode{signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON, signing.SignMode_SIGN_MODE_EIP_191, signing.SignMode_SIGN_MODE_TEXTUAL, 0, 9998}[x.rng.Intn(6)]
		c.auth.SignerInfos[0].ModeInfo = &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Single_{Single: &txtypes.ModeInfo_Single{Mode: mode}}}
		return true
	}},
	{"no-signer", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		c.auth.SignerInfos, c.sigs = nil, nil
		return true
	}},
	{"second-signer", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		si := *c.auth.SignerInfos[0]
		si.PublicKey = packAny(b.Key.PubKey().(proto.Message))
		si.Sequence = x.c.Seq(b.Acc)
		c.auth.SignerInfos = append(c.auth.SignerInfos, &si)
		c.sigs = append(c.sigs, c.sigs[0])
		return true
	}},
	{"sig-r", sigEdit(func(s []byte) []byte { s[3] ^= 0x10; return s })},
	{"sig-s", sigEdit(func(s []byte) []byte { s[40] ^= 0x01; return s })},
	{"sig-v", sigEdit(func(s []byte) []byte { s[64] ^= 1; return s })},
	{"sig-v27", sigEdit(func(s []byte) []byte { s[64] += 27; return s })},
	{"sig-v2", sigEdit(func(s []byte) []byte { s[64] += 2; return s })},
	{"sig-high-s", sigEdit(func(s []byte) []byte {
		v := new(big.Int).SetBytes(s[32:64])
		v.Sub(halfN(), v)
		v.FillBytes(s[32:64])
		s[64] ^= 1
		return s
	})},
	{"sig-plus-n", sigEdit(func(s []byte) []byte {
		v := new(big.Int).SetBytes(s[:32])
		v.Add(v, halfN())
		if v.BitLen() > 256 {
			s[0] ^= 1
			return s
		}
		v.FillBytes(s[:32])
		return s
	})},
	{"sig-empty", sigEdit(func(s []byte) []byte { return nil })},
	{"sig-zero", sigEdit(func(s []byte) []byte { return make([]byte, 65) })},
	{"sig-long", sigEdit(func(s []byte) []byte { return append(s, 0) })},
	{"sig-short", sigEdit(func(s []byte) []byte { return s[:63] })},
	{"sig-other", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		e := m.Eth
		tx := x.c.SignEth(b, verifkit.EthTx{Type: e.Type(), Nonce: e.Nonce(), To: e.To(), Data: e.Data(), Value: e.Value(), Gas: e.Gas(), FeeCap: e.GasFeeCap(), TipCap: e.GasTipCap(), AL: e.AccessList()})
		c.sigs[0] = sig65(x.c, tx)
		return true
	}},
	{"sig-chain", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		// signed for another chain
		e := m.Eth
		id := new(big.Int).Add(x.c.EthChainID(), big.NewInt(1))
		tx := x.c.SignEth(m.Signers[0], verifkit.EthTx{Type: e.Type(), Nonce: e.Nonce(), To: e.To(), Data: e.Data(), Value: e.Value(), Gas: e.Gas(), FeeCap: e.GasFeeCap(), TipCap: e.GasTipCap(), AL: e.AccessList(), ChainID: id})
		v, r, s := tx.RawSignatureValues()
		if e.Type() == 0 {
			v = new(big.Int).Sub(v, new(big.Int).Add(new(big.Int).Lsh(id, 1), big.NewInt(35)))
		}
		c.sigs[0] = rsv(r, s, v)
		return true
	}},
	{"sig-unprotected", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		if m.Eth.Type() != 0 {
			return false
		}
		e := m.Eth
		tx := x.c.SignEth(m.Signers[0], verifkit.EthTx{Nonce: e.Nonce(), To: e.To(), Data: e.Data(), Value: e.Value(), Gas: e.Gas(), FeeCap: e.GasFeeCap(), Unprot: true})
		v, r, s := tx.RawSignatureValues()
		c.sigs[0] = rsv(r, s, new(big.Int).Sub(v, big.NewInt(27)))
		return true
	}},
	{"sig-text", func(x *hrun, c *carrier, m *TxMeta, b *verifkit.Account) bool {
		// a signed text, as by personal_sign, of the same hash
		h := coretypes.LatestSignerForChainID(x.c.EthChainID()).Hash(m.Eth)
		k, err := crypto.ToECDSA(m.Signers[0].Key.Key)
		must(err)
		sg, err := crypto.Sign(crypto.Keccak256([]byte("\x19Ethereum Signed Message:\n32"), h.Bytes()), k)
		must(err)
		c.sigs[0] = sg
		return true
	}},
}

func rsv(r, s, v *big.Int) []byte {
	out := make([]byte, 65)
	r.FillBytes(out[:32])
	s.FillBytes(out[32:64])
	out[64] = byte(v.Uint64())
	return out
}

func sig65(c *verifkit.Chain, tx *coretypes.Transaction) []byte {
	v, r, s := tx.RawSignatureValues()
	if tx.Type() == 0 {
		v = new(big.Int).Sub(v, new(big.Int).Add(new(big.Int).Lsh(c.EthChainID(), 1), big.NewInt(35)))
	}
	return rsv(r, s, v)
}

func monT04(r *R) {
	r.Rule = "distinct = changes of a carried Ethereum transaction (one or two at a time), by kind of transaction, plus " + histRule[len("distinct = "):]
	r.hists("hist", 20, 600, &watch{
		blocks: 7, per: 12,
		start: func(x *hrun) {
			x.blockKeys()
			// somebody pays everybody's fees
			var txs []*TxMeta
			for _, u := range x.users[2:] {
				al, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, x.users[0].Acc, u.Acc)
				must(err)
				txs = append(txs, x.cosmosTx(x.users[0], []sdk.Msg{al}, 1_000_000, "grant", func(*Ledger) bool { return true }))
			}
			x.Run(txs)
		},
		before: func(x *hrun, txs []*TxMeta) []*TxMeta {
			x.forge(txs)
			return txs
		},
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, nil)
			x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
			for _, m := range txs {
				if m.IsEth() && m.Res.Code == 0 {
					x.executedAsSigned(m)
				}
			}
		},
	})
}

// forge submits changed copies of transactions, which must leave no trace.
func (x *hrun) forge(txs []*TxMeta) {
	first := map[string]bool{}
	pre := x.c.Dump()
	var bz [][]byte
	var names []string
	for _, m := range txs {
		s := string(m.Signers[0].Acc)
		if first[s] {
			continue
		}
		first[s] = true
		if !m.IsEth() || m.Expect == xReject || m.Seqs[0] != x.c.Seq(m.Signers[0].Acc) {
			continue
		}
		for i := 0; i < 8; i++ {
			b := x.users[x.rng.Intn(len(x.users))]
			for b == m.Signers[0] {
				b = x.users[x.rng.Intn(len(x.users))]
			}
			c := openTx(m.Bytes)
			f := forgeries[x.rng.Intn(len(forgeries))]
			if !f.do(x, c, m, b) {
				continue
			}
			name := f.name
			out := c.bytes()
			if string(out) == string(m.Bytes) {
				continue
			}
			bz = append(bz, out)
			names = append(names, fmt.Sprintf("%s type %d create %v", name, m.Eth.Type(), m.Eth.To() == nil))
		}
		x.foreign(m)
	}
	if len(bz) == 0 {
		return
	}
	// the mempool
	for i := 0; i < 4; i++ {
		j := x.rng.Intn(len(bz))
		res, err := x.c.Check(bz[j])
		x.r.Eval(1)
		if err == nil && res.Code == 0 {
			x.bad("forged-checked", "the mempool takes a transaction changed in %s", names[j])
		}
	}
	res := x.c.Block(bz...)
	if res == nil {
		x.bad("halt", "%v", x.c.HaltErr)
		return
	}
	for i, t := range res.TxResults {
		x.r.Eval(1)
		x.r.Distinct("forgery|" + names[i])
		x.r.Count("forgeries", 1)
		if t.Code == 0 {
			x.bad("forged-accepted", "a transaction changed in %s was executed", names[i])
		}
	}
	if d := x.withoutBlockKeys(verifkit.Diff(pre, x.c.Dump())); len(d) > 0 {
		x.bad("forged-left", "changed transactions (%s) left:\n%s", strings.Join(names, "; "), verifkit.DiffString(d, 6))
	}
}

// foreign offers signatures of other kinds to the node's own conversion.
func (x *hrun) foreign(m *TxMeta) {
	a, e := m.Signers[0], m.Eth
	t := verifkit.EthTx{Type: e.Type(), Nonce: e.Nonce(), To: e.To(), Data: e.Data(), Value: e.Value(), Gas: e.Gas(), FeeCap: e.GasFeeCap(), TipCap: e.GasTipCap(), AL: e.AccessList()}
	what := "another chain"
	switch x.rng.Intn(3) {
	case 0:
		t.ChainID = new(big.Int).Add(x.c.EthChainID(), big.NewInt(int64(1+x.rng.Intn(3))))
	case 1:
		what = "another chain (zero)"
		t.ChainID = big.NewInt(1)
	case 2:
		if e.Type() != 0 {
			return
		}
		what, t.Unprot = "no chain", true
	}
	stx, bz, err := x.c.EthToCosmos(x.c.SignEth(a, t))
	x.r.Eval(1)
	x.r.Count("foreign_signatures", 1)
	if err != nil {
		return
	}
	// refused on conversion or, at the latest, by the checks; as whoever it recovers to
	_ = stx
	res, cerr := x.c.Check(bz)
	if cerr == nil && res.Code == 0 {
		x.bad("foreign-signature", "a signature for %s is accepted", what)
	}
}

// executedAsSigned compares a contract creation's address and the transaction's logged sender.
func (x *hrun) executedAsSigned(m *TxMeta) {
	x.r.Eval(1)
	if m.Eth.To() == nil {
		r := responses(m.Res)[0].(*evmtypes.MsgCreateResponse)
		if w := createAddr(m.Signers[0].Eth, m.Seqs[0]); common.HexToAddress(r.ContractAddr) != w {
			x.bad("create-address", "created %s, want %s", r.ContractAddr, w)
		}
	}
	for _, e := range m.Res.Events {
		if e.Type != "tx" {
			continue
		}
		for _, at := range e.Attributes {
			if at.Key == "fee_payer" && at.Value != m.Signers[0].Bech() {
				x.bad("fee-payer", "fee of %s charged to %s", m.Signers[0].Bech(), at.Value)
			}
			if at.Key == "acc_seq" && at.Value != fmt.Sprintf("%s/%d", m.Signers[0].Bech(), m.Seqs[0]) {
				x.bad("acc-seq", "sequence event %s, want %s/%d", at.Value, m.Signers[0].Bech(), m.Seqs[0])
			}
		}
	}
}

// --- T05

// decChain has a fee token of the given decimals: the ones of genesis have 18 and 0, others are made here.
// The price, if any, is asked of transactions in that token.
func decChain(rng *rand.Rand, dec int, price string) (*verifkit.Chain, string) {
	cfg := verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 1+rng.Intn(1_000_000)), NAcc: 3}
	huge, _ := math.NewIntFromString("1000000000000000000000000000000")
	cfg.Balances = sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, huge), sdk.NewCoin("uusdc", huge))
	if dec == 18 {
		cfg.GasPrice = price
	}
	cfg.Indexer = price != ""
	c := verifkit.NewChain(cfg)
	if dec == 18 {
		return c, verifkit.FeeDenom
	}
	do := func(bz []byte) *abci.ExecTxResult {
		res := c.Block(bz)
		if res == nil || res.TxResults[0].Code != 0 {
			panic(harnessPanic{fmt.Sprintf("fee denom: %v", res)})
		}
		return res.TxResults[0]
	}
	call := func(to common.Address, data []byte) *abci.ExecTxResult {
		a := c.Accs[0]
		return do(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{&evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: to.Hex(), Input: hexBytes(data), Value: math.ZeroInt()}}, Signers: []*verifkit.Account{a}, Gas: 10_000_000, Fee: anyFee(c, 10_000_000)}))
	}
	denom := "uusdc"
	if dec != 0 {
		f, err := c.App.EVMKeeper.GetERC20FactoryAddr(c.QCtx())
		must(err)
		ctx := c.QCtx()
		ret, _, err := c.App.EVMKeeper.EVMCall(ctx, c.Accs[0].Eth, f, pack(factoryABI, "createERC20", "fee", "FEE", uint8(dec)), nil, nil)
		must(err)
		tok := common.BytesToAddress(ret)
		call(f, pack(factoryABI, "createERC20", "fee", "FEE", uint8(dec)))
		if codeLen(c, tok) == 0 { // the nonce of the caller decides
			panic(harnessPanic{"the fee token is elsewhere"})
		}
		for _, a := range append([]*verifkit.Account{c.Val}, c.Accs...) {
			call(tok, pack(erc20ABI, "mint", a.Eth, new(big.Int).Exp(big.NewInt(10), big.NewInt(45), nil)))
		}
		denom = "evm/" + tok.Hex()[2:]
	}
	do(paramsTx(c, func(p *evmtypes.Params) { p.FeeDenom = denom }))
	if price != "" {
		op, err := c.App.OPChildKeeper.GetParams(c.QCtx())
		must(err)
		op.MinGasPrices = sdk.NewDecCoins(sdk.NewDecCoinFromDec(denom, math.LegacyMustNewDecFromStr(price)))
		do(adminTx(c, &opchildtypes.MsgUpdateParams{Authority: authorityAddr(), Params: &op}))
	}
	return c, denom
}

// toUnits is what wei are in units of a token of the given decimals, and whether that is exact.
func toUnits(dec int, wei *big.Int) (*big.Int, bool) {
	if dec >= 18 {
		return new(big.Int).Mul(wei, scaleOf(dec)), true
	}
	q, m := new(big.Int).QuoRem(wei, scaleOf(dec), new(big.Int))
	return q, m.Sign() == 0
}

func bigRand(rng *rand.Rand, maxBits int) *big.Int {
	n := rng.Intn(maxBits + 1)
	b := make([]byte, 40)
	rng.Read(b)
	v := new(big.Int).SetBytes(b)
	v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
	switch rng.Intn(6) {
	case 0:
		v = new(big.Int).Lsh(big.NewInt(1), uint(n))
	case 1:
		v = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rng.Intn(20))), nil)
	}
	return v
}

func randKey(rng *rand.Rand) *ecdsa.PrivateKey {
	for {
		b := make([]byte, 32)
		rng.Read(b)
		if k, err := crypto.ToECDSA(b); err == nil {
			return k
		}
	}
}

// scaleOf is 10^|18-dec|.
func scaleOf(dec int) *big.Int {
	d := 18 - dec
	if d < 0 {
		d = -d
	}
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)
}

func monT05(r *R) {
	r.Rule = "distinct = Ethereum transactions differing in type, shape (recipient, data, access list, size of the amounts), decimals of the fee token and whether they convert"
	r.ParCase("convert", r.N(16, 400), func(id string, rng *rand.Rand) {
		dec := []int{18, 0, 6, 20, 27}[rng.Intn(5)]
		c, denom := decChain(rng, dec, "")
		ctx := c.QCtx()
		u := evmkeeper.NewTxUtils(c.App.EVMKeeper)
		scale := scaleOf(dec)
		for i := 0; i < r.N(250, 400); i++ {
			key := randKey(rng)
			from := crypto.PubkeyToAddress(key.PublicKey)
			ty := uint8(rng.Intn(3))
			var to *common.Address
			if rng.Intn(3) > 0 {
				var a common.Address
				rng.Read(a[:])
				if rng.Intn(8) == 0 {
					a = common.Address{}
				}
				to = &a
			}
			data := make([]byte, []int{0, 1, 4, 32, 300, 5000}[rng.Intn(6)])
			rng.Read(data)
			if rng.Intn(6) == 0 {
				data = nil
			}
			value := bigRand(rng, 250)
			if dec < 18 && rng.Intn(3) > 0 {
				value = new(big.Int).Mul(bigRand(rng, 190), scale)
			}
			units, whole := toUnits(dec, value)
			gas := uint64(rng.Int63n(1 << uint(1+rng.Intn(62))))
			wide := []int{180, 180, 180, 256}[rng.Intn(4)]
			fcap := bigRand(rng, wide)
			tip := bigRand(rng, wide)
			if tip.Cmp(fcap) > 0 {
				tip, fcap = fcap, tip
			}
			if ty < 2 {
				tip = fcap
			}
			var al coretypes.AccessList
			for j := rng.Intn(4); j > 0; j-- {
				var t coretypes.AccessTuple
				rng.Read(t.Address[:])
				t.StorageKeys = []common.Hash{}
				for k := rng.Intn(4); k > 0; k-- {
					var h common.Hash
					rng.Read(h[:])
					t.StorageKeys = append(t.StorageKeys, h)
				}
				al = append(al, t)
			}
			nonce := uint64(rng.Int63n(1 << uint(1+rng.Intn(60))))
			var txd coretypes.TxData
			switch ty {
			case 0:
				txd = &coretypes.LegacyTx{Nonce: nonce, GasPrice: fcap, Gas: gas, To: to, Value: value, Data: data}
			case 1:
				txd = &coretypes.AccessListTx{ChainID: c.EthChainID(), Nonce: nonce, GasPrice: fcap, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
			case 2:
				txd = &coretypes.DynamicFeeTx{ChainID: c.EthChainID(), Nonce: nonce, GasFeeCap: fcap, GasTipCap: tip, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
			}
			eth, err := coretypes.SignNewTx(key, coretypes.LatestSignerForChainID(c.EthChainID()), txd)
			must(err)
			r.Eval(1)
			bad := func(sig, f string, a ...any) {
				bz, _ := eth.MarshalBinary()
				r.Violate(id, sig, f+" (decimals %d, tx %x)", append(a, dec, bz)...)
			}
			feeUnits, _ := toUnits(dec, new(big.Int).Mul(fcap, new(big.Int).SetUint64(gas)))
			fits := units.BitLen() <= 256 && feeUnits.Add(feeUnits, big.NewInt(1)).BitLen() <= 256
			var stx sdk.Tx
			if err = attempt(ctx, func(ctx sdk.Context) (err error) {
				stx, err = u.ConvertEthereumTxToCosmosTx(ctx, eth)
				return
			}); err != nil && strings.Contains(err.Error(), "panic") {
				bad("panics", "value of %d bits, fee of %d bits: %v", units.BitLen(), feeUnits.BitLen(), err)
				continue
			}
			cls := fmt.Sprintf("type%d to=%v data=%d al=%d cap=%d dec=%d whole=%v fits=%v ok=%v", ty, to != nil, len(data), len(al), fcap.BitLen()/24, dec, whole, fits, err == nil)
			r.Distinct(cls)
			if err != nil {
				r.Count("refused", 1)
				if whole && fits {
					bad("refused", "refused: %v", err)
				}
				continue
			}
			r.Count("converted", 1)
			r.Sample("%s %s", id, cls)
			if !whole {
				bad("value-dropped", "value %s converted", value)
				continue
			}
			bz, err := c.App.TxEncode(stx)
			must(err)
			dtx, err := c.App.TxDecode(bz)
			if err != nil {
				bad("encoding", "the cosmos form cannot be decoded: %v", err)
				continue
			}
			fields(r, bad, dtx, c, from, eth, denom, dec)
			back, sender, err := u.ConvertCosmosTxToEthereumTx(ctx, dtx)
			if err != nil || back == nil {
				bad("not-back", "does not convert back: %v", err)
				continue
			}
			b1, _ := eth.MarshalBinary()
			b2, _ := back.MarshalBinary()
			if back.Hash() != eth.Hash() || string(b1) != string(b2) {
				bad("differs", "comes back as %x", b2)
			}
			if *sender != from {
				bad("sender", "sender %s, want %s", sender, from)
			}
			is, err := u.IsEthereumTx(ctx, dtx)
			if err != nil || !is {
				bad("not-ethereum", "is not told to be an Ethereum transaction: %v", err)
			}
		}
	})
	// what was not made from an Ethereum transaction does not convert
	r.hists("hist", 6, 150, &watch{
		blocks: 6,
		block: func(x *hrun, txs []*TxMeta) {
			u := evmkeeper.NewTxUtils(x.c.App.EVMKeeper)
			for _, m := range txs {
				tx, err := x.c.App.TxDecode(m.Bytes)
				if err != nil {
					continue
				}
				eth, from, _ := u.ConvertCosmosTxToEthereumTx(x.c.QCtx(), tx)
				x.r.Eval(1)
				switch {
				case m.IsEth() && (eth == nil || eth.Hash() != m.Eth.Hash() || *from != m.Signers[0].Eth):
					x.bad("included-differs", "%s %v comes back as %v", m.Kind, m.Eth.Hash(), eth)
				case !m.IsEth() && eth != nil:
					x.bad("cosmos-converts", "%s converts to an Ethereum transaction", m.Kind)
				}
				// the same with a memo like that of a carrier
				if len(m.Msgs) == 1 && len(m.Signers) == 1 && m.Signers[0].Key != nil {
					bz := x.c.Cosmos(verifkit.CosmosTx{Msgs: m.Msgs, Signers: m.Signers, Gas: 300_000, Memo: `{"type":2,"gas_fee_cap":"0","gas_tip_cap":"0"}`})
					tx, err := x.c.App.TxDecode(bz)
					must(err)
					x.r.Eval(1)
					if eth, _, _ := u.ConvertCosmosTxToEthereumTx(x.c.QCtx(), tx); eth != nil {
						x.bad("cosmos-converts", "%s with a memo converts to an Ethereum transaction", m.Kind)
					}
					if is, _ := u.IsEthereumTx(x.c.QCtx(), tx); is {
						x.bad("cosmos-converts", "%s with a memo is told to be an Ethereum transaction", m.Kind)
					}
					x.r.Count("cosmos_with_memo", 1)
				}
			}
		},
	})
}

// fields compares the cosmos form with the Ethereum transaction.
func fields(r *R, bad func(sig, f string, a ...any), tx sdk.Tx, c *verifkit.Chain, from common.Address, eth *coretypes.Transaction, denom string, dec int) {
	type full interface {
		sdk.FeeTx
		GetTimeoutHeight() uint64
		GetSignaturesV2() ([]signing.SignatureV2, error)
	}
	f := tx.(full)
	msgs := tx.GetMsgs()
	if len(msgs) != 1 {
		bad("messages", "%d messages", len(msgs))
		return
	}
	eqAL := func(al []evmtypes.AccessTuple) bool {
		e := eth.AccessList()
		if len(al) != len(e) {
			return false
		}
		for i := range al {
			if common.HexToAddress(al[i].Address) != e[i].Address || len(al[i].StorageKeys) != len(e[i].StorageKeys) {
				return false
			}
			for j := range al[i].StorageKeys {
				if common.HexToHash(al[i].StorageKeys[j]) != e[i].StorageKeys[j] {
					return false
				}
			}
		}
		return true
	}
	var sender, data string
	var value math.Int
	var al []evmtypes.AccessTuple
	switch m := msgs[0].(type) {
	case *evmtypes.MsgCall:
		sender, data, value, al = m.Sender, m.Input, m.Value, m.AccessList
		if eth.To() == nil || common.HexToAddress(m.ContractAddr) != *eth.To() {
			bad("recipient", "recipient %s of %v", m.ContractAddr, eth.To())
		}
	case *evmtypes.MsgCreate:
		sender, data, value, al = m.Sender, m.Code, m.Value, m.AccessList
		if eth.To() != nil {
			bad("recipient", "a creation of a call to %s", eth.To())
		}
	default:
		bad("messages", "message %T", m)
		return
	}
	if sender != sdk.AccAddress(from.Bytes()).String() {
		bad("sender", "sender %s of %s", sender, from)
	}
	if data != hexBytes(eth.Data()) {
		bad("data", "data %s", data)
	}
	if u, exact := toUnits(dec, eth.Value()); !exact || value.BigInt().Cmp(u) != 0 {
		bad("value", "value %s of %s", value, eth.Value())
	}
	if !eqAL(al) {
		bad("access-list", "access list %v", al)
	}
	if f.GetGas() != eth.Gas() {
		bad("gas", "gas %d of %d", f.GetGas(), eth.Gas())
	}
	// the fee is the signed one, rounded up to the unit
	wei := new(big.Int).Mul(eth.GasFeeCap(), new(big.Int).SetUint64(eth.Gas()))
	fee := f.GetFee()
	got := new(big.Int)
	for _, x := range fee {
		if x.Denom != denom {
			bad("fee", "fee %s", fee)
		}
		got = x.Amount.BigInt()
	}
	least, exact := toUnits(dec, wei)
	if !exact {
		least.Add(least, big.NewInt(1))
	}
	if got.Cmp(least) < 0 {
		bad("fee", "fee %s is less than %s wei", fee, wei)
	}
	if hi := new(big.Int).Sub(got, big.NewInt(1)); hi.Cmp(least) > 0 || wei.Sign() == 0 && eth.GasFeeCap().Sign() == 0 && got.Sign() > 0 {
		bad("fee", "fee %s is more than a unit above %s wei", fee, wei)
	}
	if f.GetTimeoutHeight() != 0 || len(f.FeeGranter()) != 0 || string(f.FeePayer()) != string(from.Bytes()) {
		bad("envelope", "timeout %d granter %x payer %x", f.GetTimeoutHeight(), f.FeeGranter(), f.FeePayer())
	}
	sigs, err := f.GetSignaturesV2()
	if err != nil || len(sigs) != 1 || sigs[0].Sequence != eth.Nonce() {
		bad("sequence", "signatures %v %v, nonce %d", sigs, err, eth.Nonce())
	}
}

// --- T06

func monT06(r *R) {
	r.Rule = "distinct = offers to the mempool differing in the denominations of the fee, its place relative to the minimum, the node's and the chain's minima and the kind of transaction"
	r.ParCase("price", r.N(24, 600), func(id string, rng *rand.Rand) {
		dens := []string{verifkit.FeeDenom, "uusdc", "zeta"}
		prices := []string{"0.000000001", "0.15", "1", "2", "2.5", "13", "1.000000000000000001"}
		mk := func() sdk.DecCoins {
			var out sdk.DecCoins
			for _, d := range dens {
				if rng.Intn(2) == 0 {
					out = append(out, sdk.NewDecCoinFromDec(d, math.LegacyMustNewDecFromStr(prices[rng.Intn(len(prices))])))
				}
			}
			return out.Sort()
		}
		chain, node := mk(), mk()
		if rng.Intn(3) == 0 {
			node = nil
		}
		big30, _ := math.NewIntFromString("1000000000000000000000000000000")
		cfg := verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 1+rng.Intn(90000)), NAcc: 6,
			Balances: sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, big30), sdk.NewCoin("uusdc", big30), sdk.NewCoin("zeta", big30), sdk.NewCoin("other", big30)),
			BaseOpts: []func(*baseapp.BaseApp){baseapp.SetMinGasPrices(node.String())},
			Genesis: func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState) {
				var og opchildtypes.GenesisState
				app.AppCodec().MustUnmarshalJSON(gs[opchildtypes.ModuleName], &og)
				og.Params.MinGasPrices = chain
				gs[opchildtypes.ModuleName] = app.AppCodec().MustMarshalJSON(&og)
			}}
		c := verifkit.NewChain(cfg)
		min := map[string]math.LegacyDec{}
		for _, l := range []sdk.DecCoins{chain, node} {
			for _, p := range l {
				if v, ok := min[p.Denom]; !ok || v.LT(p.Amount) {
					min[p.Denom] = p.Amount
				}
			}
		}
		a := c.Accs[0]
		seq := c.Seq(a.Acc)
		// what contracts and clients are told
		fp := chain.AmountOf(verifkit.FeeDenom)
		want := fp.TruncateInt().BigInt() // 18 decimals
		if b := gasPrice(c); b.Cmp(want) != 0 {
			r.Violate(id, "base-fee", "base fee %s, minimum %s", b, fp)
		}
		out := view2(c, baseFeeCode())
		if out.Cmp(want) != 0 {
			r.Violate(id, "base-fee-opcode", "BASEFEE is %s, minimum %s", out, fp)
		}
		r.Eval(2)
		for i := 0; i < r.N(30, 60); i++ {
			gas := uint64(2_000_000 + rng.Intn(1_000_000))
			var fee sdk.Coins
			enough := len(min) == 0
			cls := ""
			kind := rng.Intn(3)
			n := rng.Intn(4)
			for _, d := range append(dens, "other") {
				if n == 0 || rng.Intn(3) == 0 || kind == 2 && d != verifkit.FeeDenom {
					continue
				}
				var amt math.Int
				p, ok := min[d]
				if !ok {
					amt = math.NewInt(int64(1 + rng.Intn(1_000_000_000)))
					cls += d + "=free "
				} else {
					req := p.MulInt(math.NewIntFromUint64(gas)).Ceil().TruncateInt()
					delta := []int64{-1, 0, 1, -1, 0, 5000}[rng.Intn(6)]
					amt = req.AddRaw(delta)
					if rng.Intn(5) == 0 {
						amt = req.QuoRaw(int64(2 + rng.Intn(3)))
						delta = -9
					}
					if !amt.IsPositive() {
						continue
					}
					cls += fmt.Sprintf("%s%+d ", d, delta)
				}
				fee = fee.Add(sdk.NewCoin(d, amt))
			}
			var bz []byte
			if kind == 2 {
				// the same by an Ethereum signature: a price per gas
				fc := new(big.Int)
				if p, ok := min[verifkit.FeeDenom]; ok {
					fc = p.TruncateInt().BigInt()
					fc.Add(fc, big.NewInt(int64(rng.Intn(3)-1)))
					if fc.Sign() < 0 {
						fc.SetInt64(0)
					}
				}
				fee = sdk.Coins{}
				if fc.Sign() > 0 {
					f := new(big.Int).Mul(fc, new(big.Int).SetUint64(gas))
					fee = sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, math.NewIntFromBigInt(f.Add(f, big.NewInt(1)))))
				}
				cls = "eth"
				bz = c.Eth(a, verifkit.EthTx{Type: uint8(rng.Intn(3)), Nonce: seq, To: addrp(c.Accs[1].Eth), Gas: gas, FeeCap: fc, TipCap: fc})
			} else {
				bz = c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(a.Acc, c.Accs[1].Acc, sdk.NewCoins(verifkit.Coin("other", 1)))}, Signers: []*verifkit.Account{a}, Seqs: []uint64{seq}, Gas: gas, Fee: fee})
			}
			for d, p := range min {
				req := p.MulInt(math.NewIntFromUint64(gas)).Ceil().TruncateInt()
				if fee.AmountOf(d).GTE(req) {
					enough = true
				}
			}
			res, err := c.Check(bz)
			must(err)
			r.Eval(1)
			r.Count(fmt.Sprintf("offers_enough=%v", enough), 1)
			r.Distinct(fmt.Sprintf("%s|chain %s|node %s|%v", cls, dkey(chain), dkey(node), enough))
			r.Sample("%s chain %s node %s gas %d fee %s: admitted %v", id, chain, node, gas, fee, res.Code == 0)
			if (res.Code == 0) != enough {
				r.Violate(id, map[bool]string{true: "refused", false: "admitted"}[enough], "minimum of the chain %s, of the node %s: fee %s for %d gas (%s) gets code %d %s", chain, node, fee, gas, cls, res.Code, res.Log)
			}
			if res.Code == 0 {
				seq++
			}
			if rng.Intn(6) == 0 {
				// again from the committed state
				if c.Block() == nil {
					r.Violate(id, "halt", "%v", c.HaltErr)
					return
				}
				seq = c.Seq(a.Acc)
			}
		}
	})
}

func dkey(c sdk.DecCoins) string {
	var s []string
	for _, d := range c {
		s = append(s, d.Denom)
	}
	return strings.Join(s, "+")
}

// baseFeeCode returns BASEFEE.
func baseFeeCode() []byte { return []byte{0x48, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3} }

// view2 runs init code and reads the word it returns.
func view2(c *verifkit.Chain, code []byte) *big.Int {
	ctx := c.Scratch(20_000_000)
	ret, _, _, err := c.App.EVMKeeper.EVMCreate(ctx, c.Accs[0].Eth, code, nil, nil)
	must(err)
	return new(big.Int).SetBytes(ret)
}

// --- B06

func monB06(r *R) {
	r.Rule = "distinct = (function, decimals, size of the amount) triples and chains by decimals of the fee token"
	type conv struct {
		name string
		f    func(uint8, *big.Int) *big.Int
		base int
		to   bool
	}
	convs := []conv{{"ToEthersUint", evmtypes.ToEthersUint, 18, true}, {"FromEthersUnit", evmtypes.FromEthersUnit, 18, false},
		{"ToGweiUint", evmtypes.ToGweiUint, 9, true}, {"FromGweiUnit", evmtypes.FromGweiUnit, 9, false}}
	r.ParCase("function", r.N(64, 640), func(id string, rng *rand.Rand) {
		for dec := 0; dec <= 60; dec++ {
			for i := 0; i < 40; i++ {
				v := bigRand(rng, 256)
				if i < 4 {
					v = big.NewInt(int64(i))
				}
				if rng.Intn(3) == 0 { // around a multiple
					m := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rng.Intn(30))), nil)
					v = new(big.Int).Mul(big.NewInt(int64(rng.Intn(100))), m)
					v.Add(v, big.NewInt(int64(rng.Intn(3)-1)))
					v.Abs(v)
				}
				for _, cv := range convs {
					in := new(big.Int).Set(v)
					got := cv.f(uint8(dec), v)
					up := cv.base - dec
					if !cv.to {
						up = -up
					}
					// spelled out digit by digit, independent of big exponentiation
					s := in.String()
					if up >= 0 {
						s += strings.Repeat("0", up)
					} else if len(s) > -up {
						s = s[:len(s)+up]
					} else {
						s = "0"
					}
					want, _ := new(big.Int).SetString(s, 10)
					r.Eval(1)
					if got.Cmp(want) != 0 {
						r.Violate(id, cv.name, "%s(%d, %s) = %s, want %s", cv.name, dec, in, got, want)
					}
					if v.Cmp(in) != 0 {
						r.Violate(id, cv.name+"-aliases", "%s(%d, %s) changed its argument to %s", cv.name, dec, in, v)
					}
					if got == v {
						r.Violate(id, cv.name+"-aliases", "%s(%d, %s) returns its argument", cv.name, dec, in)
					}
					r.Distinct(fmt.Sprintf("%s|%d|%d", cv.name, dec, in.BitLen()/32))
				}
			}
		}
	})
	r.ParCase("chain", r.N(12, 200), func(id string, rng *rand.Rand) {
		dec := []int{18, 0, 6, 9, 20, 30}[rng.Intn(6)]
		price := []string{"0.15", "1", "2.5", "0.000000001", "0.0000000015", "1234567.891"}[rng.Intn(6)]
		if dec > 18 && rng.Intn(2) == 0 {
			price = []string{"123456789", "1234567890123", "99999999999999999999.5"}[rng.Intn(3)]
		}
		c, denom := decChain(rng, dec, price)
		r.Distinct(fmt.Sprintf("chain|%d|%s", dec, price))
		// the price keeps nine digits below the unit, then scales to 18 decimals, rounding down
		p := math.LegacyMustNewDecFromStr(price)
		nine := p.MulInt64(1_000_000_000).TruncateInt().BigInt()
		want := new(big.Int).Set(nine)
		if dec <= 18 {
			want.Mul(want, scaleOf(dec))
			want.Quo(want, big.NewInt(1_000_000_000))
		} else {
			want.Quo(want, new(big.Int).Mul(scaleOf(dec), big.NewInt(1_000_000_000)))
		}
		if b := gasPrice(c); b.Cmp(want) != 0 {
			r.Violate(id, "base-fee", "price %s of a token of %d decimals gives base fee %s, want %s", price, dec, b, want)
		}
		if b := view2(c, baseFeeCode()); b.Cmp(want) != 0 {
			r.Violate(id, "base-fee-opcode", "price %s of a token of %d decimals gives BASEFEE %s, want %s", price, dec, b, want)
		}
		var gp hexutil.Big
		if err := call(c.NewNode(nil), &gp, "eth_gasPrice"); err != nil || gp.ToInt().Cmp(want) != 0 {
			r.Violate(id, "eth_gasPrice", "price %s of a token of %d decimals: eth_gasPrice %v, want %s (%v)", price, dec, gp.ToInt(), want, err)
		}
		r.Eval(3)
		// transactions: the recipient gets exactly the value, sub-unit values are refused, the fee is never less than signed
		u := evmkeeper.NewTxUtils(c.App.EVMKeeper)
		a, b := c.Accs[0], c.Accs[1]
		for i := 0; i < 12; i++ {
			wei := big.NewInt(int64(rng.Intn(100_000)))
			if dec < 18 {
				wei.Mul(wei, scaleOf(dec))
			}
			units, _ := toUnits(dec, wei)
			sub := dec < 18 && rng.Intn(3) == 0
			if sub {
				wei.Add(wei, big.NewInt(int64(1+rng.Intn(1_000_000))))
			}
			fc := new(big.Int).Add(gasPrice(c), bigRand(rng, 30))
			gas := uint64(400_000)
			tx := c.SignEth(a, verifkit.EthTx{Type: uint8(rng.Intn(3)), Nonce: c.Seq(a.Acc), To: &b.Eth, Value: wei, Gas: gas, FeeCap: fc, TipCap: fc})
			stx, err := u.ConvertEthereumTxToCosmosTx(c.QCtx(), tx)
			r.Eval(1)
			if sub {
				r.Count("sub_unit_values", 1)
				if err == nil {
					r.Violate(id, "sub-unit", "%s wei of a token of %d decimals converted", wei, dec)
				}
				continue
			}
			if err != nil {
				r.Violate(id, "refused", "%s wei of a token of %d decimals: %v", wei, dec, err)
				continue
			}
			bz, err := c.App.TxEncode(stx)
			must(err)
			pa, pb, pc := c.Bal(a.Acc, denom), c.Bal(b.Acc, denom), c.Bal(collectorAddr.Bytes(), denom)
			res := c.Block(bz)
			if res == nil || res.TxResults[0].Code != 0 {
				r.Violate(id, "transfer", "transfer of %s wei at price %s failed: %v", wei, fc, res)
				return
			}
			qa, qb, qc := c.Bal(a.Acc, denom), c.Bal(b.Acc, denom), c.Bal(collectorAddr.Bytes(), denom)
			if !qb.Sub(pb).Equal(math.NewIntFromBigInt(units)) {
				r.Violate(id, "received", "%s wei arrived as %s units of a token of %d decimals", wei, qb.Sub(pb), dec)
			}
			if !pa.Sub(qa).Equal(qb.Sub(pb).Add(qc.Sub(pc))) {
				r.Violate(id, "created", "payer lost %s, recipient and collector gained %s and %s", pa.Sub(qa), qb.Sub(pb), qc.Sub(pc))
			}
			// the paid price times the gas used is a lower bound of what the collector keeps
			used := new(big.Int).Mul(fc, big.NewInt(res.TxResults[0].GasUsed))
			keep := qc.Sub(pc).BigInt()
			if least, _ := toUnits(dec, used); keep.Cmp(least) < 0 {
				r.Violate(id, "fee-short", "the collector keeps %s units for %s gas at %s", keep, big.NewInt(res.TxResults[0].GasUsed), fc)
			}
			r.Count("transfers", 1)
		}
	})
}

var _ = txtypes.Tx{}
