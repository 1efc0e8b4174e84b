package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"slices"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/vm"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["Q01"] = monQ01 }

// guess is what simulations said about a transaction which then ran first in
// the next block.
type guess struct {
	m      *TxMeta
	desc   string
	query  *evmtypes.QueryCallResponse
	qerr   error
	ethRet hexutil.Bytes
	ethErr error
	estGas hexutil.Uint64
	estErr error
	sim    *sdk.Result
	simGas uint64
	simErr error
	// exact: it has the gas it was estimated to need
	exact bool
}

// told is an answer of a gRPC query about a height.
type told struct {
	height    int64
	path      string
	req, resp []byte
	err       string
}

// allState is the committed state and that of the transactions checked since.
func allState(c *verifkit.Chain) (verifkit.Dump, verifkit.Dump) {
	return c.Dump(), c.DumpCtx(c.App.NewContext(true))
}

func monQ01(r *R) {
	r.Rule = "distinct = (kind and shape of a simulated and then executed call, its outcome) and (kind of query, what it asks about, whether it answers)"
	r.hists("history", 12, 300, &watch{blocks: 8, per: 9, cfg: func(rng *rand.Rand, c *verifkit.Config) {
		c.GasPrice = ""
		c.Indexer = true
	}, start: func(x *hrun) {
		x.state["n"] = x.c.NewNode(nil)
		x.state["p"] = newProbes(x)
		x.state["told"] = &[]told{}
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta {
		n := x.state["n"].(*verifkit.Node)
		z := x.newNoise(x.c, n, x.rng)
		z.abci = false
		for _, b := range x.c.Blocks {
			z.txs = append(z.txs, b.Txs...)
		}
		for _, m := range txs {
			z.txs = append(z.txs, m.Bytes)
		}
		var g *guess
		com, chk := allState(x.c)
		for i := 0; i < 3; i++ {
			for j := 0; j < 8; j++ {
				z.seen = map[string]int{}
				z.ask()
			}
			if i == 0 {
				x.askTold(z)
			}
			if i == 1 {
				g = x.guess(n)
			}
			if !x.untouched(com, chk, fmt.Sprint("queries ending with ", z.seen)) {
				break
			}
		}
		x.reask()
		// a caller of a long address is seen by contracts under its short one
		for _, who := range []*verifkit.Account{x.long, x.users[0]} {
			var resp evmtypes.QueryCallResponse
			if err := grpc(x.c, 0, "/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: who.Bech(), Input: "0x33325f5260205260405ff3", Value: math.ZeroInt()}, &resp); err != nil || resp.Error != "" || word(common.FromHex(resp.Response), 0).Cmp(new(big.Int).SetBytes(who.Eth[:])) != 0 || word(common.FromHex(resp.Response), 1).Cmp(new(big.Int).SetBytes(who.Eth[:])) != 0 {
				x.bad("query-caller", "a call of %s is told to be one of %s (%v %s), not of %s", who.Bech(), resp.Response, err, resp.Error, who.Eth)
			}
			x.r.Eval(1)
		}
		x.truth(n, z.addr())
		x.state["g"] = g
		if g != nil && g.m != nil {
			// it runs first and in place of others of its sender
			l := []*TxMeta{g.m}
			for _, m := range txs {
				if !slices.Contains(m.Signers, g.m.Signers[0]) {
					l = append(l, m)
				}
			}
			txs = l
		}
		return txs
	}, block: func(x *hrun, txs []*TxMeta) {
		if g, ok := x.state["g"].(*guess); ok && g != nil && g.m != nil {
			x.judgeGuess(g)
		}
	}})
}

func (x *hrun) untouched(com, chk verifkit.Dump, by string) bool {
	com2, chk2 := allState(x.c)
	x.r.Eval(1)
	x.r.Count("states_compared", 2)
	if d := verifkit.Diff(com, com2); len(d) > 0 {
		x.bad("changed", "%s changed the committed state\n%s", by, verifkit.DiffString(d, 10))
		return false
	}
	if d := verifkit.Diff(chk, chk2); len(d) > 0 {
		x.bad("changed-check", "%s changed what transactions are checked against\n%s", by, verifkit.DiffString(d, 10))
		return false
	}
	return true
}

// truth compares what queries about the latest state say with other ways to know it.
func (x *hrun) truth(n *verifkit.Node, other common.Address) {
	const path = "/minievm.evm.v1.Query/"
	ctx := x.c.QCtx()
	for _, who := range []common.Address{x.puppets[x.rng.Intn(len(x.puppets))], x.pickTok().addr, x.users[0].Eth, other} {
		var code evmtypes.QueryCodeResponse
		err := grpc(x.c, 0, path+"Code", &evmtypes.QueryCodeRequest{ContractAddr: who.Hex()}, &code)
		x.r.Eval(1)
		// another contract's look at it
		look := verifkit.NewAsm().Push(who).Op(vm.EXTCODESIZE, vm.DUP1, vm.PUSH0, vm.PUSH0).Push(who).Op(vm.EXTCODECOPY, vm.PUSH0, vm.RETURN).Bytes()
		cc, _ := ctx.CacheContext()
		want, _, _, cerr := x.c.App.EVMKeeper.EVMCreate(unlimited(cc), x.c.Accs[0].Eth, look, nil, nil)
		if cerr == nil && (err != nil || !bytes.Equal(common.FromHex(code.Code), want)) {
			x.bad("query-code", "code of %s is told to be %s (%v), contracts see %x", who, code.Code, err, want)
		}
		for i := 0; i < 3; i++ {
			key := common.BigToHash(big.NewInt(int64(x.rng.Intn(6))))
			var st evmtypes.QueryStateResponse
			err := grpc(x.c, 0, path+"State", &evmtypes.QueryStateRequest{ContractAddr: who.Hex(), Key: key.Hex()}, &st)
			var slot hexutil.Bytes
			must(call(n, &slot, "eth_getStorageAt", who, key, "latest"))
			x.r.Eval(1)
			if err != nil || common.HexToHash(st.Value) != common.BytesToHash(slot) {
				x.bad("query-state", "slot %s of %s is told to be %s (%v), asked otherwise %s", key, who, st.Value, err, slot)
			}
			if common.BytesToHash(slot) != (common.Hash{}) {
				x.r.Count("slots_in_use_told", 1)
			}
		}
	}
	ps, err := x.c.App.EVMKeeper.Params.Get(ctx)
	must(err)
	var pr evmtypes.QueryParamsResponse
	if err := grpc(x.c, 0, path+"Params", &evmtypes.QueryParamsRequest{}, &pr); err != nil || pr.Params.String() != ps.String() {
		x.bad("query-params", "parameters are told to be %v (%v), not %v", pr.Params, err, ps)
	}
	f, err := x.c.App.EVMKeeper.ERC20FactoryAddr.Get(ctx)
	must(err)
	w, err := x.c.App.EVMKeeper.ERC20WrapperAddr.Get(ctx)
	must(err)
	var fr evmtypes.QueryERC20FactoryResponse
	if err := grpc(x.c, 0, path+"ERC20Factory", &evmtypes.QueryERC20FactoryRequest{}, &fr); err != nil || !bytes.Equal(common.FromHex(fr.Address), f) {
		x.bad("query-factory", "the factory is told to be %s (%v), not %x", fr.Address, err, f)
	}
	var wr evmtypes.QueryERC20WrapperResponse
	if err := grpc(x.c, 0, path+"ERC20Wrapper", &evmtypes.QueryERC20WrapperRequest{}, &wr); err != nil || !bytes.Equal(common.FromHex(wr.Address), w) {
		x.bad("query-wrapper", "the wrapper is told to be %s (%v), not %x", wr.Address, err, w)
	}
	x.r.Eval(3)
}

// askTold records what queries about the latest state say.
func (x *hrun) askTold(z *noise) {
	l := x.state["told"].(*[]told)
	ask := func(path string, req, resp proto.Message) {
		bz, err := proto.Marshal(req)
		must(err)
		t := told{height: x.c.Height, path: path, req: bz}
		if err := grpc(x.c, 0, path, req, resp); err != nil {
			t.err = err.Error()
		}
		t.resp, err = proto.Marshal(resp)
		must(err)
		*l = append(*l, t)
		x.r.Distinct(fmt.Sprintf("query|%s|%s|%v", path, x.nameOf(z.addr()), t.err == ""))
	}
	for i := 0; i < 4; i++ {
		who := z.addr()
		ask("/minievm.evm.v1.Query/Code", &evmtypes.QueryCodeRequest{ContractAddr: who.Hex()}, &evmtypes.QueryCodeResponse{})
		ask("/minievm.evm.v1.Query/State", &evmtypes.QueryStateRequest{ContractAddr: who.Hex(), Key: fmt.Sprintf("0x%064x", x.rng.Intn(6))}, &evmtypes.QueryStateResponse{})
		ask("/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: x.cosmosOf(x.users[0].Eth).String(), ContractAddr: x.pickTok().addr.Hex(), Input: hexutil.Encode(pack(erc20ABI, "balanceOf", who)), Value: math.ZeroInt()}, &evmtypes.QueryCallResponse{})
		ask("/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: x.cosmosOf(x.users[x.rng.Intn(len(x.users))].Eth).String(), ContractAddr: x.puppets[x.rng.Intn(len(x.puppets))].Hex(), Input: hexutil.Encode(z.input()), Value: math.NewInt(int64(x.rng.Intn(3)))}, &evmtypes.QueryCallResponse{})
	}
}

// reask asks again about a past height.
func (x *hrun) reask() {
	l := *x.state["told"].(*[]told)
	for i := 0; i < 10; i++ {
		t := l[x.rng.Intn(len(l))]
		x.r.Eval(1)
		var req, resp proto.Message
		switch {
		case strings.HasSuffix(t.path, "Code"):
			req, resp = &evmtypes.QueryCodeRequest{}, &evmtypes.QueryCodeResponse{}
		case strings.HasSuffix(t.path, "State"):
			req, resp = &evmtypes.QueryStateRequest{}, &evmtypes.QueryStateResponse{}
		default:
			req, resp = &evmtypes.QueryCallRequest{}, &evmtypes.QueryCallResponse{}
		}
		must(proto.Unmarshal(t.req, req))
		e := ""
		if err := grpc(x.c, t.height, t.path, req, resp); err != nil {
			e = err.Error()
		}
		bz, err := proto.Marshal(resp)
		must(err)
		if e != t.err || !bytes.Equal(bz, t.resp) {
			x.bad("past", "%s %v about height %d: %q %q now, %q %q then", t.path, req, t.height, e, resp, t.err, t.resp)
		}
		x.r.Count(fmt.Sprintf("asked_again_%v", t.height < x.c.Height), 1)
		if err := grpc(x.c, x.c.Height+1+int64(x.rng.Intn(100)), t.path, req, resp); err == nil {
			x.bad("future", "%s %v: answered about a height to come", t.path, req)
		}
	}
}

// guess simulates a transaction every way there is.
func (x *hrun) guess(n *verifkit.Node) *guess {
	a := x.eoa()
	if a == nil {
		return nil
	}
	p := x.puppets[x.rng.Intn(len(x.puppets))]
	to := &p
	var in []byte
	value := new(big.Int)
	kind := "script"
	switch x.rng.Intn(8) {
	case 0:
		kind = "token"
		t := x.pickTok()
		to = &t.addr
		in = [][]byte{
			pack(erc20ABI, "transfer", x.pickTo(), x.amt(t.denom, a.Eth)),
			pack(erc20ABI, "approve", x.pickTo(), big.NewInt(5)),
			pack(erc20ABI, "mint", a.Eth, big.NewInt(5)),
			pack(erc20ABI, "balanceOf", a.Eth),
		}[x.rng.Intn(4)]
	case 1:
		kind, to = "deploy", nil
		in = [][]byte{verifkit.Deployer(puppetCode()), {0xfe}, {0x60, 0, 0x60, 0, 0xfd}, verifkit.Deployer([]byte{0xef, 1}), {}}[x.rng.Intn(5)]
	case 2:
		kind = "factory"
		to, in = &x.factory, pack(factoryABI, "createERC20", "guess", "G", uint8(x.rng.Intn(30)))
	case 3:
		kind = "value"
		t := x.pickTo()
		to = &t
		value.SetInt64(int64(x.rng.Intn(5000)))
		if x.rng.Intn(4) == 0 {
			value.Lsh(value, 80)
		}
	case 4:
		kind = "probe"
		in = x.state["p"].(*probes).script()
		if bytes.Contains(in, x.state["p"].(*probes).env.Bytes()) {
			return nil // asks for the block
		}
	default:
		in = x.compile(p, x.genFrame(p, 0))
		if x.rng.Intn(4) == 0 {
			value.SetInt64(int64(x.rng.Intn(100)))
		}
	}
	if x.gp.Sign() > 0 {
		return nil // simulations and executions pay different fees
	}
	g := &guess{}
	g.desc = fmt.Sprintf("%s by %s to %v value %v input %.200x", kind, x.nameOf(a.Eth), to, value, in)
	q := &evmtypes.QueryCallRequest{Sender: a.Bech(), Input: hexutil.Encode(in), Value: math.NewIntFromBigInt(value)}
	arg := map[string]any{"from": a.Eth, "data": hexutil.Bytes(in), "value": (*hexutil.Big)(wei(x, value))}
	if to != nil {
		q.ContractAddr = to.Hex()
		arg["to"] = to
	}
	g.query = &evmtypes.QueryCallResponse{}
	if x.rng.Intn(3) == 0 {
		q.TraceOptions = &evmtypes.TraceOptions{WithStack: x.rng.Intn(2) == 0, WithStorage: true, WithReturnData: true}
	}
	g.qerr = grpc(x.c, 0, "/minievm.evm.v1.Query/Call", q, g.query)
	g.ethErr = call(n, &g.ethRet, "eth_call", arg, "latest")
	g.estErr = call(n, &g.estGas, "eth_estimateGas", arg)
	gas := uint64(3_000_000)
	if g.estErr == nil && kind != "script" && kind != "probe" && x.rng.Intn(2) == 0 {
		gas, g.exact = uint64(g.estGas), true
	}
	m := &TxMeta{Kind: "guess-" + kind, Signers: []*verifkit.Account{a}, Seqs: []uint64{x.c.Seq(a.Acc)}, Payer: a.Eth, Gas: gas, Expect: xModel, Apply: yes}
	m.Eth = x.c.SignEth(a, verifkit.EthTx{Type: uint8(x.rng.Intn(3)), Nonce: m.Seqs[0], To: to, Data: in, Value: wei(x, value), Gas: m.Gas, FeeCap: new(big.Int), TipCap: new(big.Int)})
	var err error
	_, m.Bytes, err = x.c.EthToCosmos(m.Eth)
	if err != nil {
		x.bad("convert", "%s: %v", kind, err)
		return nil
	}
	g.m = m
	var gi sdk.GasInfo
	gi, g.sim, g.simErr = x.c.App.Simulate(g.m.Bytes)
	g.simGas = gi.GasUsed
	return g
}

// wei is an amount of the fee token in the JSON-RPC interface's unit.
func wei(x *hrun, v *big.Int) *big.Int {
	return evmtypes.ToEthersUint(x.feeDec(), v)
}

// judgeGuess compares the simulations with the execution.
func (x *hrun) judgeGuess(g *guess) {
	r := x.r
	res := g.m.Res
	if g.exact {
		// a plain call with just the gas it was estimated to need
		r.Eval(1)
		r.Count("exact_"+g.m.Kind, 1)
		if strings.Contains(res.Log, "out of gas") {
			x.bad("estimate-short", "%s: given the %d gas it was estimated to need, it fails: %s", g.desc, g.m.Gas, res.Log)
			return
		}
	}
	if res.GasUsed > 2_800_000 || strings.Contains(res.Log, "out of gas") {
		r.Count("guess_hungry", 1)
		return
	}
	if rejected(g.m) {
		r.Count("guess_rejected", 1)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Printf("rejected %.100s: %.300s\n", g.desc, res.Log)
		}
		return
	}
	r.Eval(1)
	ok := res.Code == 0
	var ret []byte
	var logs []evmtypes.Log
	if ok {
		switch m := responses(res)[0].(type) {
		case *evmtypes.MsgCallResponse:
			ret, logs = common.FromHex(m.Result), m.Logs
		case *evmtypes.MsgCreateResponse:
			ret, logs = common.FromHex(m.Result), m.Logs
		}
	}
	r.Count(fmt.Sprintf("%s_%v", g.m.Kind, ok), 1)
	r.Distinct(fmt.Sprintf("guess|%s|%v|%d|%d", g.m.Kind, ok, len(ret), len(logs)))
	r.Sample("%s: executed ok=%v %x, query %v %v, eth_call %x %v, estimate %d %v, used %d", g.desc, ok, ret, g.query, g.qerr, []byte(g.ethRet), g.ethErr, g.estGas, g.estErr, res.GasUsed)
	// a cosmos message of the call which fails at the end fails the transaction
	if g.qerr != nil {
		if ok || !strings.Contains(g.qerr.Error(), "vm panic") {
			x.bad("query", "%s: the query fails: %v", g.desc, g.qerr)
			return
		}
		g.query.Error = g.qerr.Error()
	}
	if (g.query.Error == "") != ok {
		x.bad("query-outcome", "%s: simulated %q, executed ok=%v %s", g.desc, g.query.Error, ok, res.Log)
		return
	}
	if (g.ethErr == nil) != ok {
		x.bad("eth_call-outcome", "%s: simulated %v, executed ok=%v %s", g.desc, g.ethErr, ok, res.Log)
		return
	}
	if (g.simErr == nil) != ok {
		x.bad("simulate-outcome", "%s: simulated %v, executed ok=%v %s", g.desc, g.simErr, ok, res.Log)
		return
	}
	if (g.estErr == nil) != ok {
		x.bad("estimate-outcome", "%s: simulated %v, executed ok=%v %s", g.desc, g.estErr, ok, res.Log)
		return
	}
	if !ok {
		return
	}
	if q := common.FromHex(g.query.Response); !bytes.Equal(q, ret) {
		x.bad("query-result", "%s: simulated %x, executed %x", g.desc, q, ret)
	}
	if fmt.Sprint(g.query.Logs) != fmt.Sprint(logs) {
		x.bad("query-logs", "%s: simulated %v, executed %v", g.desc, g.query.Logs, logs)
	}
	if !bytes.Equal(g.ethRet, ret) {
		x.bad("eth_call-result", "%s: simulated %x, executed %x", g.desc, []byte(g.ethRet), ret)
	}
	var md sdk.TxMsgData
	md.MsgResponses = g.sim.MsgResponses
	bz, err := proto.Marshal(&md)
	must(err)
	if !bytes.Equal(bz, res.Data) {
		x.bad("simulate-result", "%s: simulated %x, executed %x", g.desc, bz, res.Data)
	}
	if r.Eval(1); int64(g.estGas) < res.GasUsed {
		x.bad("estimate", "%s: estimated %d, used %d", g.desc, uint64(g.estGas), res.GasUsed)
	}
}
