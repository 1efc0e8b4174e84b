package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/gogoproto/proto"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

func limited(ctx sdk.Context, gas uint64) sdk.Context {
	return ctx.WithGasMeter(storetypes.NewGasMeter(gas))
}

func unlimited(ctx sdk.Context) sdk.Context {
	return ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
}

// responses decodes the message responses of a successful tx.
func responses(res *abci.ExecTxResult) []proto.Message {
	var d sdk.TxMsgData
	must(d.Unmarshal(res.Data))
	var out []proto.Message
	for _, a := range d.MsgResponses {
		switch {
		case strings.HasSuffix(a.TypeUrl, "MsgCallResponse"):
			var m evmtypes.MsgCallResponse
			must(m.Unmarshal(a.Value))
			out = append(out, &m)
		case strings.HasSuffix(a.TypeUrl, "MsgCreateResponse"):
			var m evmtypes.MsgCreateResponse
			must(m.Unmarshal(a.Value))
			out = append(out, &m)
		case strings.HasSuffix(a.TypeUrl, "MsgCreate2Response"):
			var m evmtypes.MsgCreate2Response
			must(m.Unmarshal(a.Value))
			out = append(out, &m)
		default:
			out = append(out, nil)
		}
	}
	return out
}

// txLogs are the EVM logs of all messages of a tx.
func txLogs(res *abci.ExecTxResult) []evmtypes.Log {
	var l []evmtypes.Log
	if res.Code != 0 {
		return nil
	}
	for _, m := range responses(res) {
		switch x := m.(type) {
		case *evmtypes.MsgCallResponse:
			l = append(l, x.Logs...)
		case *evmtypes.MsgCreateResponse:
			l = append(l, x.Logs...)
		case *evmtypes.MsgCreate2Response:
			l = append(l, x.Logs...)
		}
	}
	return l
}

func addrp(a common.Address) *common.Address { return &a }

// deployEth deploys runtime code by an ethereum tx in a block of its own.
func deployEth(c *verifkit.Chain, a *verifkit.Account, init []byte) common.Address {
	n := c.Seq(a.Acc)
	r := c.Block(c.Eth(a, verifkit.EthTx{Type: 2, Nonce: n, Data: init, Gas: 20_000_000, FeeCap: gasPrice(c)}))
	if r == nil || r.TxResults[0].Code != 0 {
		panic(harnessPanic{fmt.Sprintf("deployment failed: %v %v", c.HaltErr, r)})
	}
	return createAddr(a.Eth, n)
}

// gasPrice is a sufficient ethereum gas price.
func gasPrice(c *verifkit.Chain) *big.Int {
	p, err := c.App.EVMKeeper.BaseFee(c.QCtx())
	must(err)
	return p
}

// words of a byte string
func word(bz []byte, i int) *big.Int {
	if len(bz) < 32*(i+1) {
		return big.NewInt(-1)
	}
	return new(big.Int).SetBytes(bz[32*i : 32*i+32])
}

func timeDur(n int) time.Duration { return time.Duration(n) }

func hexBytes(b []byte) string { return hexutil.Encode(b) }

// paramsTx is a governance proposal execution changing the evm params (admin signs MsgExecuteMessages).
func paramsTx(c *verifkit.Chain, f func(p *evmtypes.Params)) []byte {
	p, err := c.App.EVMKeeper.Params.Get(c.QCtx())
	must(err)
	f(&p)
	return adminTx(c, &evmtypes.MsgUpdateParams{Authority: authtypes.NewModuleAddress(opchildtypes.ModuleName).String(), Params: p})
}

// adminTx runs messages with the authority of the chain.
func adminTx(c *verifkit.Chain, msgs ...sdk.Msg) []byte {
	m, err := opchildtypes.NewMsgExecuteMessages(c.Val.Bech(), msgs)
	must(err)
	return c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{c.Val}, Gas: 10_000_000, Fee: anyFee(c, 10_000_000)})
}

// anyFee pays the minimum price for gas.
func anyFee(c *verifkit.Chain, gas uint64) sdk.Coins {
	dp, err := c.App.OPChildKeeper.MinGasPrices(c.QCtx())
	must(err)
	a := dp.AmountOf(verifkit.FeeDenom).MulInt64(int64(gas)).Ceil().TruncateInt()
	if a.IsZero() {
		return nil
	}
	return sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, a))
}

// authorityAddr is the account parameters belong to.
func authorityAddr() string { return authtypes.NewModuleAddress(opchildtypes.ModuleName).String() }
