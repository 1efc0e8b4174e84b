package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oraclekeeper "github.com/skip-mev/connect/v2/x/oracle/keeper"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	forwardingtypes "github.com/noble-assets/forwarding/v2/x/forwarding/types"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["L01"] = monL01 }

// watched runs a block and gives up on it after a while.
func watched(c *verifkit.Chain, limit time.Duration, txs ...[]byte) (res *abci.ResponseFinalizeBlock, in time.Duration, stuck bool) {
	done := make(chan *abci.ResponseFinalizeBlock, 1)
	t := time.Now()
	go func() {
		res := c.Finalize(txs...)
		if res != nil {
			c.Commit()
		}
		done <- res
	}()
	select {
	case res = <-done:
		return res, time.Since(t), false
	case <-time.After(limit):
		return nil, limit, true
	}
}

// trapKinds are ways a token can treat a chain that moves it.
var trapKinds = []string{"note", "revert", "invalid", "value-to-module", "value-to-nobody", "grow", "destroy", "long", "logs", "dispatch", "reenter", "loop", "burn", "store-loop", "create-loop", "call-loop"}

// trapCode is a token that notes the most gas it is given (slot 100) and then does something; its
// views answer a balance of 1000.
func trapCode(kind string, blocked, heir common.Address) []byte {
	a := verifkit.NewAsm()
	a.Push(0).Op(vm.CALLDATALOAD).Push(224).Op(vm.SHR)
	for _, m := range []string{"balanceOf", "decimals", "totalSupply"} {
		a.Op(vm.DUP1).Push(erc20ABI.Methods[m].ID).Op(vm.EQ).PushLabel("view").Op(vm.JUMPI)
	}
	a.Op(vm.DUP1).Push(erc20ABI.Methods["sudoTransfer"].ID).Op(vm.EQ).PushLabel("move").Op(vm.JUMPI)
	a.Op(vm.STOP)
	a.Label("view").Push(1000).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	a.Label("move")
	a.Push(101).Op(vm.SLOAD).Push(1).Op(vm.ADD).Push(101).Op(vm.SSTORE) // calls
	a.Op(vm.GAS).Push(100).Op(vm.SLOAD, vm.LT).PushLabel("more").Op(vm.JUMPI)
	a.PushLabel("then").Op(vm.JUMP)
	a.Label("more").Op(vm.GAS).Push(100).Op(vm.SSTORE)
	a.Label("then")
	switch kind {
	case "note":
		a.Op(vm.STOP)
	case "revert":
		a.RevertMem(0, 64)
	case "invalid":
		a.Op(vm.INVALID)
	case "value-to-module":
		a.Call(vm.CALL, blocked, 1, 0, 0, nil).Op(vm.STOP)
	case "value-to-nobody":
		a.Call(vm.CALL, heir, 1, 0, 0, nil).Op(vm.STOP)
	case "grow":
		a.Push(1<<20).Label("l").Op(vm.DUP1, vm.DUP1, vm.MSTORE, vm.DUP1, vm.ADD).PushLabel("l").Op(vm.JUMP)
	case "destroy":
		a.Push(blocked).Op(vm.SELFDESTRUCT)
	case "long":
		a.ReturnMem(0, 1<<20)
	case "logs":
		for i := 0; i < 40; i++ {
			a.Log0(0, 1024)
		}
		a.Op(vm.STOP)
	case "dispatch":
		in := pack(cosmosABI, "execute_cosmos", `{"@type":"/minievm.evm.v1.MsgCall","sender":"x","contract_addr":"x","input":"","value":"0"}`)
		a.MstoreBytes(0, in).Call(vm.CALL, common.HexToAddress("0xf1"), 0, 0, len(in), nil).Op(vm.STOP)
	case "reenter":
		a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CALLDATACOPY)
		a.Push(0).Push(0).Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.ADDRESS, vm.GAS, vm.CALL, vm.STOP)
	case "burn": // nearly all there is, and be done
		a.Label("l").Push(60_000).Op(vm.GAS, vm.GT).PushLabel("l").Op(vm.JUMPI, vm.STOP)
	case "loop":
		a.Label("l").PushLabel("l").Op(vm.JUMP)
	case "store-loop":
		a.Push(1).Label("l").Push(1).Op(vm.ADD, vm.DUP1, vm.DUP1, vm.SSTORE).PushLabel("l").Op(vm.JUMP)
	case "create-loop":
		a.Label("l").Push(0).Push(0).Push(0).Op(vm.CREATE, vm.POP).PushLabel("l").Op(vm.JUMP)
	case "call-loop":
		a.Label("l").Call(vm.STATICCALL, blocked, 0, 0, 0, nil).Op(vm.POP).PushLabel("l").Op(vm.JUMP)
	}
	return a.Bytes()
}

// trapInit deploys a trap and puts it into the lists of its holders.
func trapInit(run []byte, holders ...common.Address) []byte {
	a := verifkit.NewAsm()
	ins := [][]byte{pack(registryABI, "register_erc20")}
	for _, h := range holders {
		ins = append(ins, pack(registryABI, "register_erc20_store", h))
	}
	for _, in := range ins {
		a.MstoreBytes(0, in).Call(vm.CALL, registryPrecompile, 0, 0, len(in), nil).Op(vm.POP)
	}
	pre := a.Bytes()
	d := verifkit.Deployer(run)
	off := int(d[5])<<8 | int(d[6])
	off += len(pre)
	d[5], d[6] = byte(off>>8), byte(off)
	return append(pre, d...)
}

func monL01(r *R) {
	r.Rule = "distinct = (situation, kind of hostile content, outcome)"
	r.ParCase("reads", r.N(30, 300), func(id string, rng *rand.Rand) { l01Reads(r, id, rng) })
	r.ParCase("hostile", r.N(12, 300), func(id string, rng *rand.Rand) { l01Hostile(r, id, rng) })
	r.ParCase("unpaid", r.N(24, 300), func(id string, rng *rand.Rand) { l01Unpaid(r, id, rng) })
	r.Case("cost", func(rng *rand.Rand) { l01Cost(r, "cost", rng) })
	r.ParCase("crowd", r.N(2, 12), func(id string, rng *rand.Rand) { l01Crowd(r, id, rng) })
}

// l01Reads asks the chain from a contract call: what the chain reads to answer is paid for.
func l01Reads(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	srv := oraclekeeper.NewQueryServer(*c.App.OracleKeeper)
	var names []string
	for i, n := 0, []int{1, 10, 60, 200}[rng.Intn(4)]; i < n; i++ {
		cp, err := connecttypes.CurrencyPairFromString(fmt.Sprintf("C%d/USD", i))
		must(err)
		must(c.App.OracleKeeper.CreateCurrencyPair(ctx, cp))
		must(c.App.OracleKeeper.SetPriceForCurrencyPair(ctx, cp, oracletypes.QuotePrice{Price: math.NewInt(rng.Int63()), BlockTimestamp: ctx.BlockTime(), BlockHeight: uint64(ctx.BlockHeight())}))
		names = append(names, fmt.Sprintf("C%d/USD", i))
	}
	ask := names[:1+rng.Intn(len(names))]
	bz, err := json.Marshal(ask)
	must(err)
	for i, req := range []string{fmt.Sprintf(`{"currency_pair_ids":%s}`, bz), fmt.Sprintf(`{"currency_pair":"%s"}`, ask[0]), `{}`} {
		reads := storetypes.NewInfiniteGasMeter()
		mctx := ctx.WithGasMeter(reads)
		var err error
		switch i {
		case 0:
			_, err = srv.GetPrices(mctx, &oracletypes.GetPricesRequest{CurrencyPairIds: ask})
		case 1:
			_, err = srv.GetPrice(mctx, &oracletypes.GetPriceRequest{CurrencyPair: ask[0]})
		case 2:
			_, err = srv.GetAllCurrencyPairs(mctx, &oracletypes.GetAllCurrencyPairsRequest{})
		}
		must(err)
		paid := storetypes.NewGasMeter(1_000_000_000)
		cctx, _ := ctx.CacheContext()
		_, _, err = c.App.EVMKeeper.EVMCall(cctx.WithGasMeter(paid), c.Accs[0].Eth, cosmosPrecompile, pack(cosmosABI, "query_cosmos", whitelisted[i], req), nil, nil)
		r.Eval(1)
		r.Distinct(fmt.Sprintf("reads|%d|%d|%d", i, len(names), len(ask)))
		if err != nil {
			r.Violate(id, "reads-refused", "%s %s: %v", whitelisted[i], req, err)
		} else if paid.GasConsumed() < reads.GasConsumed() {
			r.Violate(id, "unpaid-reads", "a contract asked %s with %d pairs on the chain and paid %d gas; reading what it was answered costs %d", whitelisted[i], len(names), paid.GasConsumed(), reads.GasConsumed())
		}
	}
	r.Count("reads", 3)
}

// unpaidGas is far more than what the chain spends by itself on a transfer, and what a node runs in
// a moment.
const unpaidGas = 100_000_000

// forwardRig is a chain with a transfer channel and an account that passes on what it gets.
type forwardRig struct {
	c           *verifkit.Chain
	user, other *verifkit.Account
	fwd         sdk.AccAddress
	fwdEth      common.Address
}

func newForwardRig(rng *rand.Rand) *forwardRig {
	g := &forwardRig{c: verifkit.NewChain(verifkit.Config{NAcc: 4, GasPrice: "0.15"})}
	c := g.c
	p := ports20
	openChannel(c, func(m sdk.Msg) *sdk.Result {
		return txResult(c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{c.Val}, Fee: anyFee(c, 2_000_000)})))
	}, &p)
	g.user, g.other = c.Accs[0], c.Accs[1]
	recipient := sdk.AccAddress(freshBytes(rng)).String()
	txResult(c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{&forwardingtypes.MsgRegisterAccount{Signer: g.user.Bech(), Recipient: recipient, Channel: p.near}}, Signers: []*verifkit.Account{g.user}, Gas: 3_000_000, Fee: anyFee(c, 3_000_000)})))
	g.fwd = forwardingtypes.GenerateAddress(p.near, recipient, "")
	g.fwdEth = common.BytesToAddress(g.fwd)
	return g
}

// pay sends the account coins, which it passes on at the end of the block.
func (g *forwardRig) pay() []byte {
	coins := sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, math.NewInt(1234)))
	return g.c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(g.other.Acc, g.fwd, coins)}, Signers: []*verifkit.Account{g.other}, Gas: 2_000_000, Fee: anyFee(g.c, 2_000_000)})
}

// l01Crowd: many tokens on one account, each taking what it gets.
func l01Crowd(r *R, id string, rng *rand.Rand) {
	g := newForwardRig(rng)
	c := g.c
	var traps []common.Address
	n := 50 + rng.Intn(30)
	nonce := c.Seq(g.user.Acc)
	for len(traps) < n {
		var txs [][]byte
		for i := 0; i < 20; i++ {
			txs = append(txs, c.Eth(g.user, verifkit.EthTx{Type: 2, Nonce: nonce, Data: trapInit(trapCode("burn", collectorAddr, g.fwdEth), g.fwdEth), Gas: 3_000_000, FeeCap: gasPrice(c)}))
			traps = append(traps, createAddr(g.user.Eth, nonce))
			nonce++
		}
		res := c.Block(txs...)
		if res == nil {
			r.Violate(id, "halt", "%v", c.HaltErr)
			return
		}
		for _, t := range res.TxResults {
			if t.Code != 0 {
				panic(harnessPanic{"deploying a token: " + t.Log})
			}
		}
	}
	res, in, stuck := watched(c, 120*time.Second, g.pay())
	r.Eval(1)
	if stuck || res == nil {
		r.Violate(id, "crowd-halt", "with %d tokens that burn gas on a forwarding account the block was not done after %s: %v", n, in, c.HaltErr)
		return
	}
	sum, calls := new(big.Int), 0
	for _, t := range traps {
		v := slotOf(c, c.QCtx(), t, 100)
		if v.Sign() > 0 {
			calls++
		}
		sum.Add(sum, v)
	}
	r.Distinct(fmt.Sprintf("crowd|%d of %d moved", calls/10*10, n/10*10))
	r.Sample("%s: of %d tokens %d were moved, with %s gas, in %s", id, len(traps), calls, sum, in)
	r.Count("crowd_gas", int(sum.Int64()))
	if sum.Cmp(big.NewInt(unpaidGas)) > 0 {
		r.Violate(id, "crowd-gas", "at the end of a block %d tokens took %s gas, which nobody pays for", calls, sum)
	}
}

// l01Unpaid: tokens moved by the chain itself, at the end of a block, where nobody pays for the gas.
func l01Unpaid(r *R, id string, rng *rand.Rand) {
	g := newForwardRig(rng)
	c, user, other, fwd, fwdEth := g.c, g.user, g.other, g.fwd, g.fwdEth
	kinds := []string{}
	traps := []common.Address{}
	// noted: no token may be run with more gas than a moment's worth. The harmless one goes first.
	for i, n := 0, 1+rng.Intn(3); i <= n; i++ {
		kind := trapKinds[rng.Intn(len(trapKinds))]
		if i == 0 {
			kind = "note"
		}
		kinds = append(kinds, kind)
		t := deployEth(c, user, trapInit(trapCode(kind, collectorAddr, common.BytesToAddress(freshBytes(rng))), fwdEth))
		traps = append(traps, t)
		// some have coins
		coins := c.Eth(other, verifkit.EthTx{Type: 2, Nonce: c.Seq(other.Acc), To: &t, Value: big.NewInt(1_000_000_000_000_000), Gas: 400_000, FeeCap: gasPrice(c)})
		if c.Block(coins) == nil {
			r.Violate(id, "halt", "%v", c.HaltErr)
			return
		}
		if i != 0 && i != n {
			continue
		}
		// honest coins wait there, too
		pay := g.pay()
		h := c.Height
		res, in, stuck := watched(c, 60*time.Second, pay)
		r.Eval(1)
		r.Sample("%s: forwarding %v took %s", id, kinds, in)
		for _, k := range kinds {
			r.Distinct(fmt.Sprintf("unpaid|%s|%v", k, res != nil))
		}
		if stuck {
			r.Violate(id, "unpaid-stuck", "with tokens of kinds %v on a forwarding account the block was not done after %s", kinds, in)
			return
		}
		if res == nil {
			r.Violate(id, "unpaid-halt", "with tokens of kinds %v on a forwarding account the block failed: %v", kinds, c.HaltErr)
			return
		}
		if c.Height != h+1 || res.TxResults[0].Code != 0 {
			r.Violate(id, "unpaid-honest", "a plain payment beside tokens of kinds %v: code %d %s", kinds, res.TxResults[0].Code, res.TxResults[0].Log)
		}
		r.Count("forwarding_blocks", 1)
		if gas := slotOf(c, c.QCtx(), traps[0], 100); gas.Cmp(big.NewInt(unpaidGas)) > 0 {
			r.Violate(id, "unpaid-gas", "the chain itself ran token %s at the end of a block with %s gas, which nobody pays for", t, gas)
			return
		} else if gas.Sign() > 0 {
			r.Count("tokens_moved_unpaid", 1)
		}
		if b := c.Bal(fwd, verifkit.FeeDenom); !b.IsZero() {
			r.Violate(id, "unpaid-honest", "beside tokens of kinds %v the account still has %s%s", kinds, b, verifkit.FeeDenom)
		}
	}
	ctx := c.QCtx()
	for i, t := range traps {
		gas := slotOf(c, ctx, t, 100)
		r.Count("noted_gas", 1)
		if gas.Cmp(big.NewInt(unpaidGas)) > 0 {
			r.Violate(id, "unpaid-gas", "the chain itself ran token %s (%s) at the end of a block with %s gas, which nobody pays for", t, kinds[i], gas)
		}
	}
	// the honest coins are on their way whatever the others did
	if b := c.Bal(fwd, verifkit.FeeDenom); !b.IsZero() {
		r.Violate(id, "unpaid-honest", "beside tokens of kinds %v the account still has %s%s", kinds, b, verifkit.FeeDenom)
	}
	// and the chain lives on
	if res := c.Block(); res == nil {
		r.Violate(id, "unpaid-halt", "the block after forwarding tokens of kinds %v: %v", kinds, c.HaltErr)
	}
}

func freshBytes(rng *rand.Rand) []byte {
	b := make([]byte, 20)
	rng.Read(b)
	return b
}

// slotOf reads a storage slot.
func slotOf(c *verifkit.Chain, ctx sdk.Context, a common.Address, slot int64) *big.Int {
	_, evm, err := c.App.EVMKeeper.CreateEVM(unlimited(ctx), common.Address{}, nil)
	must(err)
	return evm.StateDB.GetState(a, common.BigToHash(big.NewInt(slot))).Big()
}

// txResult is the result of a block's only transaction, which must succeed.
func txResult(res *abci.ResponseFinalizeBlock) *sdk.Result {
	if res == nil || res.TxResults[0].Code != 0 {
		panic(harnessPanic{fmt.Sprintf("a transaction failed: %v", res)})
	}
	out := &sdk.Result{}
	var md sdk.TxMsgData
	must(md.Unmarshal(res.TxResults[0].Data))
	out.MsgResponses = md.MsgResponses
	return out
}
