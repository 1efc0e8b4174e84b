package verifkit

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/client"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
)

// EthTx describes an ethereum transaction to sign.
type EthTx struct {
	Type    uint8
	Nonce   uint64
	To      *common.Address
	Data    []byte
	Value   *big.Int
	Gas     uint64
	FeeCap  *big.Int
	TipCap  *big.Int
	AL      coretypes.AccessList
	ChainID *big.Int // nil: the chain's
	Unprot  bool     // pre EIP-155
	HighS   bool
}

// SignEth signs an ethereum tx with the account's key.
func (c *Chain) SignEth(a *Account, t EthTx) *coretypes.Transaction {
	if t.Value == nil {
		t.Value = new(big.Int)
	}
	if t.FeeCap == nil {
		t.FeeCap = new(big.Int)
	}
	if t.TipCap == nil {
		t.TipCap = new(big.Int)
	}
	id := t.ChainID
	if id == nil {
		id = c.EthChainID()
	}
	var d coretypes.TxData
	switch t.Type {
	case coretypes.LegacyTxType:
		d = &coretypes.LegacyTx{Nonce: t.Nonce, GasPrice: t.FeeCap, Gas: t.Gas, To: t.To, Value: t.Value, Data: t.Data}
	case coretypes.AccessListTxType:
		d = &coretypes.AccessListTx{ChainID: id, Nonce: t.Nonce, GasPrice: t.FeeCap, Gas: t.Gas, To: t.To, Value: t.Value, Data: t.Data, AccessList: t.AL}
	case coretypes.DynamicFeeTxType:
		d = &coretypes.DynamicFeeTx{ChainID: id, Nonce: t.Nonce, GasFeeCap: t.FeeCap, GasTipCap: t.TipCap, Gas: t.Gas, To: t.To, Value: t.Value, Data: t.Data, AccessList: t.AL}
	default:
		panic("type")
	}
	key, err := crypto.ToECDSA(a.Key.Key)
	if err != nil {
		panic(err)
	}
	var signer coretypes.Signer = coretypes.LatestSignerForChainID(id)
	if t.Unprot {
		signer = coretypes.HomesteadSigner{}
	}
	tx, err := coretypes.SignNewTx(key, signer, d)
	if err != nil {
		panic(err)
	}
	return tx
}

// EthToCosmos converts with the node's own conversion on committed state.
func (c *Chain) EthToCosmos(tx *coretypes.Transaction) (sdk.Tx, []byte, error) {
	stx, err := evmkeeper.NewTxUtils(c.App.EVMKeeper).ConvertEthereumTxToCosmosTx(c.QCtx(), tx)
	if err != nil {
		return nil, nil, err
	}
	bz, err := c.App.TxEncode(stx)
	return stx, bz, err
}

// Eth signs and encodes; panics on conversion failure.
func (c *Chain) Eth(a *Account, t EthTx) []byte {
	_, bz, err := c.EthToCosmos(c.SignEth(a, t))
	if err != nil {
		panic(fmt.Sprintf("EthToCosmos: %v", err))
	}
	return bz
}

// CosmosTx describes a direct-mode cosmos tx.
type CosmosTx struct {
	Msgs    []sdk.Msg
	Signers []*Account
	Seqs    []uint64 // defaults to committed sequences
	Gas     uint64
	Fee     sdk.Coins
	Memo    string
	Granter sdk.AccAddress
	Payer   sdk.AccAddress
	Timeout uint64
	ChainID string
	AccNums []uint64
	NoPub   bool
}

// Cosmos signs a cosmos tx in SIGN_MODE_DIRECT.
func (c *Chain) Cosmos(t CosmosTx) []byte {
	tx := c.CosmosBuilder(t)
	bz, err := c.App.TxConfig().TxEncoder()(tx.GetTx())
	if err != nil {
		panic(err)
	}
	return bz
}

// CosmosNoPub is Cosmos with the public keys left out of the signer infos
// (legal once the accounts have theirs on chain).
func (c *Chain) CosmosNoPub(t CosmosTx) []byte {
	t.NoPub = true
	return c.Cosmos(t)
}

func (c *Chain) CosmosBuilder(t CosmosTx) client.TxBuilder {
	b := c.App.TxConfig().NewTxBuilder()
	if err := b.SetMsgs(t.Msgs...); err != nil {
		panic(err)
	}
	if t.Gas == 0 {
		t.Gas = 2_000_000
	}
	b.SetGasLimit(t.Gas)
	b.SetFeeAmount(t.Fee)
	b.SetMemo(t.Memo)
	b.SetTimeoutHeight(t.Timeout)
	if t.Granter != nil {
		b.SetFeeGranter(t.Granter)
	}
	if t.Payer != nil {
		b.SetFeePayer(t.Payer)
	}
	chainID := t.ChainID
	if chainID == "" {
		chainID = c.Cfg.ChainID
	}
	ctx := c.QCtx()
	var sigs []signing.SignatureV2
	nums := make([]uint64, len(t.Signers))
	seqs := make([]uint64, len(t.Signers))
	for i, s := range t.Signers {
		if acc := c.App.AccountKeeper.GetAccount(ctx, s.Acc); acc != nil {
			nums[i], seqs[i] = acc.GetAccountNumber(), acc.GetSequence()
		}
		if t.Seqs != nil {
			seqs[i] = t.Seqs[i]
		}
		if t.AccNums != nil {
			nums[i] = t.AccNums[i]
		}
		pk := s.Priv.PubKey()
		if t.NoPub {
			pk = nil
		}
		sigs = append(sigs, signing.SignatureV2{PubKey: pk, Sequence: seqs[i],
			Data: &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	for i, s := range t.Signers {
		bz, err := authsigning.GetSignBytesAdapter(ctx, c.App.TxConfig().SignModeHandler(), signing.SignMode_SIGN_MODE_DIRECT,
			authsigning.SignerData{Address: s.Bech(), ChainID: chainID, AccountNumber: nums[i], Sequence: seqs[i], PubKey: s.Priv.PubKey()}, b.GetTx())
		if err != nil {
			panic(err)
		}
		sig, err := s.Priv.Sign(bz)
		if err != nil {
			panic(err)
		}
		sigs[i].Data = &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT, Signature: sig}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	return b
}

// Check runs CheckTx (new) and returns the response.
func (c *Chain) Check(tx []byte) (*abci.ResponseCheckTx, error) {
	return c.App.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
}

func Coin(denom string, n int64) sdk.Coin { return sdk.NewCoin(denom, math.NewInt(n)) }
