package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oraclekeeper "github.com/skip-mev/connect/v2/x/oracle/keeper"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	monitors["C03"] = monC03
	monitors["C04"] = monC04
}

// --- C03

// cquery is a request to the precompile and what it has to answer (nil: refused).
type cquery struct {
	what string
	in   []byte
	want []byte
}

func packOut(m string, args ...any) []byte {
	bz, err := cosmosABI.Methods[m].Outputs.Pack(args...)
	must(err)
	return bz
}

// c03State is what the generator of requests knows.
type c03State struct {
	c      *verifkit.Chain
	ctx    sdk.Context
	addrs  []common.Address
	denoms []string
	erc20s []common.Address
	pairs  []string
	longs  map[common.Address]sdk.AccAddress // shorthand to original
}

// original is the address an account of the EVM stands for.
func (s *c03State) original(a common.Address) sdk.AccAddress {
	if l, ok := s.longs[a]; ok {
		return l
	}
	return a.Bytes()
}

var whitelisted = []string{"/connect.oracle.v2.Query/GetPrices", "/connect.oracle.v2.Query/GetPrice", "/connect.oracle.v2.Query/GetAllCurrencyPairs"}

var notWhitelisted = []string{
	"/cosmos.bank.v1beta1.Query/Balance", "/cosmos.bank.v1beta1.Query/TotalSupply", "/cosmos.auth.v1beta1.Query/Account", "/cosmos.auth.v1beta1.Query/Params",
	"/minievm.evm.v1.Query/Call", "/minievm.evm.v1.Query/Params", "/connect.oracle.v2.Query/GetCurrencyPairMapping", "/connect.marketmap.v2.Query/MarketMap",
	"/opinit.opchild.v1.Query/Params", "/cosmos.tx.v1beta1.Service/Simulate", "/cosmos.base.node.v1beta1.Service/Config",
	"", "/", "connect.oracle.v2.Query/GetPrices", "/connect.oracle.v2.Query/GetPrices/", "/connect.oracle.v2.Query/getprices", "/connect.oracle.v2.Query/GetPricesx", "/connect.oracle.v2.Msg/AddCurrencyPairs",
}

// answer computes the reply to a whitelisted query with messages of its own.
func (s *c03State) answer(path, req string) []byte {
	cdc := s.c.App.AppCodec()
	srv := oraclekeeper.NewQueryServer(*s.c.App.OracleKeeper)
	ctx := unlimited(s.ctx)
	var resp proto.Message
	var err error
	switch path {
	case whitelisted[0]:
		var q oracletypes.GetPricesRequest
		if cdc.UnmarshalJSON([]byte(req), &q) != nil {
			return nil
		}
		resp, err = srv.GetPrices(ctx, &q)
	case whitelisted[1]:
		var q oracletypes.GetPriceRequest
		if cdc.UnmarshalJSON([]byte(req), &q) != nil {
			return nil
		}
		resp, err = srv.GetPrice(ctx, &q)
	case whitelisted[2]:
		var q oracletypes.GetAllCurrencyPairsRequest
		if cdc.UnmarshalJSON([]byte(req), &q) != nil {
			return nil
		}
		resp, err = srv.GetAllCurrencyPairs(ctx, &q)
	default:
		return nil
	}
	if err != nil {
		return nil
	}
	bz, err := cdc.MarshalJSON(resp)
	must(err)
	return packOut("query_cosmos", string(bz))
}

func (s *c03State) query(rng *rand.Rand) cquery {
	c, k := s.c, s.c.App.EVMKeeper
	ctx := unlimited(s.ctx)
	pickA := func() common.Address {
		if rng.Intn(8) == 0 {
			return common.BytesToAddress(ethcrypto.Keccak256([]byte(fmt.Sprint(rng.Int()))))
		}
		return s.addrs[rng.Intn(len(s.addrs))]
	}
	switch n := rng.Intn(22); {
	case n < 3:
		a := pickA()
		return cquery{"is_blocked_address", pack(cosmosABI, "is_blocked_address", a), packOut("is_blocked_address", c.App.BankKeeper.BlockedAddr(s.original(a)))}
	case n < 6:
		a := pickA()
		_, is := c.App.AccountKeeper.GetAccount(ctx, s.original(a)).(sdk.ModuleAccountI)
		return cquery{"is_module_address", pack(cosmosABI, "is_module_address", a), packOut("is_module_address", is)}
	case n < 7:
		a := pickA()
		return cquery{"to_cosmos_address", pack(cosmosABI, "to_cosmos_address", a), packOut("to_cosmos_address", sdk.AccAddress(a.Bytes()).String())}
	case n < 9:
		a := pickA()
		str := sdk.AccAddress(a.Bytes()).String()
		var want []byte
		switch rng.Intn(6) {
		case 0:
			str = s.original(a).String()
			if len(s.original(a)) == 20 {
				want = packOut("to_evm_address", a)
			}
		case 1:
			str = []string{"", " ", "init1", a.Hex(), strings.ToUpper(str[:8]) + str[8:], str[:len(str)-1] + "q1", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", "\xff\xfe"}[rng.Intn(8)]
			if str == a.Hex() { // addresses may be written in hexadecimal as well
				want = packOut("to_evm_address", a)
				if bz, err := c.App.AccountKeeper.AddressCodec().StringToBytes(str); err != nil || !bytes.Equal(bz, a.Bytes()) {
					want = nil
				}
			}
		default:
			want = packOut("to_evm_address", a)
		}
		return cquery{"to_evm_address", pack(cosmosABI, "to_evm_address", str), want}
	case n < 11:
		a := pickA()
		if rng.Intn(3) > 0 {
			a = s.erc20s[rng.Intn(len(s.erc20s))]
		}
		d, err := k.ERC20DenomsByContractAddr.Get(ctx, a.Bytes())
		if err != nil {
			d = "evm/" + a.Hex()[2:]
		}
		return cquery{"to_denom", pack(cosmosABI, "to_denom", a), packOut("to_denom", d)}
	case n < 14:
		var d string
		var want []byte
		switch rng.Intn(5) {
		case 0:
			a := pickA()
			d = "evm/" + a.Hex()[2:]
			want = packOut("to_erc20", a)
		case 1:
			d = []string{"", "nothing", "evm/", "evm/xyz", "UUSDC", "ibc/abcdef"}[rng.Intn(6)]
			if strings.HasPrefix(d, "evm/") { // a malformed name is refused
				want = nil
			}
		default:
			d = s.denoms[rng.Intn(len(s.denoms))]
			bz, err := k.ERC20ContractAddrsByDenom.Get(ctx, d)
			must(err)
			want = packOut("to_erc20", common.BytesToAddress(bz))
		}
		return cquery{"to_erc20", pack(cosmosABI, "to_erc20", d), want}
	case n < 19:
		path := whitelisted[rng.Intn(3)]
		pair := func() string {
			if rng.Intn(8) == 0 {
				return []string{"NO/PAIR", "BTC", "", "btc/usd", "A/B/C"}[rng.Intn(5)]
			}
			return s.pairs[rng.Intn(len(s.pairs))]
		}
		var req string
		switch rng.Intn(8) {
		case 0, 1:
			req = `{}`
		case 2:
			req = []string{"", "null", "[]", "{", `"x"`, `{"currency_pair_ids":"BTC/USD"}`, `{"currency_pair_ids":[1]}`, `{"currency_pair":7}`, `{"nope":1}`, `{"currency_pair_ids":["BTC/USD"],"nope":1}`,
				`{"currency_pair":"BTC/USD","nope":2}`, `{"currency_pair_ids":["BTC/USD"` + "]", `{"currency_pair_ids":null}`, `{"currency_pair":null}`, `{"currencyPair":"BTC/USD"}`, `{"currencyPairIds":["BTC/USD"]}`}[rng.Intn(16)]
		default:
			if path == whitelisted[1] {
				req = fmt.Sprintf(`{"currency_pair":%q}`, pair())
			} else if path == whitelisted[0] {
				var l []string
				for i, m := 0, rng.Intn(4); i < m; i++ {
					l = append(l, fmt.Sprintf("%q", pair()))
				}
				req = `{"currency_pair_ids":[` + strings.Join(l, ",") + `]}`
			} else {
				req = `{}`
			}
		}
		return cquery{"query_cosmos " + path + " " + req, pack(cosmosABI, "query_cosmos", path, req), s.answer(path, req)}
	case n < 20:
		path := notWhitelisted[rng.Intn(len(notWhitelisted))]
		req := []string{`{}`, `{"address":"` + c.Accs[0].Bech() + `","denom":"uusdc"}`, `{"currency_pair":"BTC/USD"}`}[rng.Intn(3)]
		return cquery{"query_cosmos-unlisted " + path, pack(cosmosABI, "query_cosmos", path, req), nil}
	default:
		// not a request at all
		in := pack(cosmosABI, "to_denom", pickA())
		switch rng.Intn(5) {
		case 0:
			in = in[:rng.Intn(4)]
		case 1:
			in = in[:4+rng.Intn(31)]
		case 2:
			in = append([]byte{1, 2, 3, 4}, in[4:]...)
		case 3:
			in = pack(cosmosABI, "query_cosmos", whitelisted[1], `{"currency_pair":"BTC/USD"}`)
			copy(in[4+rng.Intn(2)*32:], bytes.Repeat([]byte{0xff}, 32))
		case 4: // an address must not have more than 20 bytes
			in[4+rng.Intn(12)] = 1
			if _, err := cosmosABI.Methods["to_denom"].Inputs.Unpack(in[4:]); err == nil {
				in = in[:3]
			}
		}
		return cquery{"junk", in, nil}
	}
}

// oraclePairs puts currency pairs with prices into the oracle.
func oraclePairs(c *verifkit.Chain, ctx sdk.Context, rng *rand.Rand) []string {
	var out []string
	for _, s := range []string{"BTC/USD", "ETH/USD", "TIA/BTC", "INIT/USD"} {
		cp, err := connecttypes.CurrencyPairFromString(s)
		must(err)
		if !c.App.OracleKeeper.HasCurrencyPair(ctx, cp) {
			must(c.App.OracleKeeper.CreateCurrencyPair(ctx, cp))
		}
		if rng.Intn(5) > 0 {
			must(c.App.OracleKeeper.SetPriceForCurrencyPair(ctx, cp, oracletypes.QuotePrice{Price: math.NewInt(rng.Int63()), BlockTimestamp: ctx.BlockTime(), BlockHeight: uint64(ctx.BlockHeight())}))
		}
		out = append(out, s)
	}
	return out
}

func newC03State(c *verifkit.Chain, ctx sdk.Context, rng *rand.Rand, id string) *c03State {
	s := &c03State{c: c, ctx: ctx, longs: map[common.Address]sdk.AccAddress{}}
	for _, a := range c.Accs[:3] {
		s.addrs = append(s.addrs, a.Eth)
	}
	for name := range minitiaapp.GetMaccPerms() {
		s.addrs = append(s.addrs, common.BytesToAddress(authtypes.NewModuleAddress(name)))
	}
	sortAddrs(s.addrs)
	s.addrs = append(s.addrs, cosmosPrecompile, registryPrecompile, common.HexToAddress("0x1"), common.Address{}, common.HexToAddress("0x9999999999999999999999999999999999999999"))
	// an account with a long address, and a module account with one
	for i := 0; i < 2; i++ {
		l := verifkit.NewLongAccount(fmt.Sprint(id, i))
		if i == 1 {
			acc := authtypes.NewModuleAccount(authtypes.NewBaseAccountWithAddress(l.Acc), "longmod")
			c.App.AccountKeeper.SetAccount(ctx, c.App.AccountKeeper.NewAccount(ctx, acc))
		}
		must(c.App.BankKeeper.SendCoins(ctx, c.Accs[1].Acc, l.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 5))))
		must(c.App.BankKeeper.SendCoins(ctx, l.Acc, c.Accs[1].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))) // makes its account in the EVM
		s.longs[l.Eth] = l.Acc
		s.addrs = append(s.addrs, l.Eth)
	}
	s.denoms = []string{verifkit.FeeDenom, "uusdc", "ibc/ABCDEF", "zeta"}
	for i, n := 0, rng.Intn(3); i < n; i++ {
		d := fmt.Sprintf("new%d", i)
		must(c.App.EVMKeeper.ERC20Keeper().CreateERC20(ctx, d, 0))
		s.denoms = append(s.denoms, d)
	}
	for _, d := range s.denoms {
		bz, err := c.App.EVMKeeper.ERC20ContractAddrsByDenom.Get(unlimited(ctx), d)
		must(err)
		s.erc20s = append(s.erc20s, common.BytesToAddress(bz))
	}
	s.pairs = oraclePairs(c, ctx, rng)
	return s
}

func sortAddrs(a []common.Address) {
	for i := range a {
		for j := i; j > 0 && a[j].Cmp(a[j-1]) < 0; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func monC03(r *R) {
	r.Rule = "distinct = (kind of request, its text with addresses and numbers removed, answered or refused, call or static call)"
	c := base()
	r.ParCase("answer", r.N(400, 12000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		k := c.App.EVMKeeper
		// the first call of a precompile makes its account
		_, _, err := k.EVMCall(ctx, c.Accs[0].Eth, cosmosPrecompile, pack(cosmosABI, "to_cosmos_address", c.Accs[0].Eth), nil, nil)
		must(err)
		_, puppet, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, verifkit.Deployer(puppetCode()), nil, nil)
		must(err)
		s := newC03State(c, ctx, rng, id)
		s.addrs = append(s.addrs, puppet)
		before := c.DumpCtx(ctx)
		var qs []cquery
		var rs []Rec
		for i, n := 0, 4+rng.Intn(10); i < n; i++ {
			q := s.query(rng)
			qs = append(qs, q)
			rs = append(rs, rec([]int{pCallRet, pStaticRet}[rng.Intn(2)], cosmosPrecompile, i, q.in))
		}
		o := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: puppet, data: script(rs...), gas: 60_000_000}, false, false, nil)
		if o.err != nil {
			r.Violate(id, "execution", "%d requests: %v", len(qs), o.err)
			return
		}
		if len(o.logs) != len(qs) {
			r.Violate(id, "execution", "%d answers to %d requests", len(o.logs), len(qs))
			return
		}
		for i, q := range qs {
			r.Eval(1)
			got, err := o.logs[i].ToEthLog().Data, error(nil)
			must(err)
			op := map[int]string{pCallRet: "call", pStaticRet: "static"}[rs[i].Op]
			r.Distinct(logClass(q.what) + "|" + fmt.Sprint(q.want != nil) + "|" + op)
			r.Count(map[bool]string{true: "answered", false: "refused"}[q.want != nil], 1)
			r.Sample("%s request %d: %s -> %d bytes", id, i, q.what, len(q.want))
			ok := word(got, 0).Int64() == 1
			if ok != (q.want != nil) {
				r.Violate(id, "answer-"+strings.Fields(q.what)[0], "request %d, %s (%x): success %v, want %v\nanswer %x", i, q.what, q.in, ok, q.want != nil, got)
			} else if ok && !bytes.Equal(got[32:], q.want) {
				r.Violate(id, "answer-"+strings.Fields(q.what)[0], "request %d, %s (%x): answer\n%x %q\nwant\n%x %q", i, q.what, q.in, got[32:], printable(got), q.want, printable(q.want))
			}
		}
		// asking changes nothing
		none := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: puppet, data: nil, gas: 60_000_000}, false, false, nil)
		if d := verifkit.Diff(c.DumpCtx(none.ctx), c.DumpCtx(o.ctx)); len(d) > 0 {
			r.Violate(id, "impure", "asking changed\n%s", verifkit.DiffString(d, 6))
		}
		if d := verifkit.Diff(before, c.DumpCtx(ctx)); len(d) > 0 {
			r.Violate(id, "impure", "asking changed what it does not run on\n%s", verifkit.DiffString(d, 6))
		}
		// the same requests in another order cost and answer the same
		perm := rng.Perm(len(qs))
		var prs []Rec
		for _, p := range perm {
			prs = append(prs, rs[p])
		}
		o2 := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: puppet, data: script(prs...), gas: 60_000_000}, false, false, nil)
		r.Eval(1)
		if o2.err != nil || len(o2.logs) != len(qs) {
			r.Violate(id, "order", "in another order: %v, %d answers", o2.err, len(o2.logs))
			return
		}
		for i, p := range perm {
			if !bytes.Equal(o2.logs[i].ToEthLog().Data, o.logs[p].ToEthLog().Data) {
				r.Violate(id, "order", "%s: answers\n%x\nin another order\n%x", qs[p].what, o.logs[p].ToEthLog().Data, o2.logs[i].ToEthLog().Data)
			}
		}
	})
	// two nodes, one of which serves queries all the time
	r.ParCase("nodes", r.N(4, 80), func(id string, rng *rand.Rand) { c03Nodes(r, id, rng) })
}

func printable(b []byte) string {
	var s strings.Builder
	for _, x := range b {
		if x >= 32 && x < 127 {
			s.WriteByte(x)
		}
	}
	return s.String()
}

func c03Nodes(r *R, id string, rng *rand.Rand) {
	cfg := verifkit.Config{NAcc: 4, GasPrice: "0.15", Genesis: func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState) {
		var g oracletypes.GenesisState
		app.AppCodec().MustUnmarshalJSON(gs[oracletypes.ModuleName], &g)
		for i := range g.CurrencyPairGenesis {
			if x := &g.CurrencyPairGenesis[i]; i%3 > 0 {
				x.CurrencyPairPrice, x.Nonce = &oracletypes.QuotePrice{Price: math.NewInt(int64(1000 + i)), BlockHeight: 1}, 3
			}
		}
		gs[oracletypes.ModuleName] = app.AppCodec().MustMarshalJSON(&g)
	}}
	a, b := verifkit.NewChain(cfg), verifkit.NewChain(cfg)
	puppet := deployEth(a, a.Accs[0], verifkit.Deployer(puppetCode()))
	deployEth(b, b.Accs[0], verifkit.Deployer(puppetCode()))
	newDenom := 0
	for blk := 0; blk < 5; blk++ {
		ctx := a.Scratch(0)
		s := &c03State{c: a, ctx: ctx, longs: map[common.Address]sdk.AccAddress{}, denoms: []string{"uusdc", "zeta"}, pairs: []string{"BTC/USD", "ETH/USD", "INJ/USD", "PYTH/USD"}}
		for _, x := range a.Accs {
			s.addrs = append(s.addrs, x.Eth)
		}
		s.addrs = append(s.addrs, common.BytesToAddress(authtypes.NewModuleAddress(opchildtypes.ModuleName)), puppet)
		s.erc20s = []common.Address{a.Contract("uusdc"), a.Contract("zeta")}
		mk := func(rng *rand.Rand) []byte {
			var rs []Rec
			for i, n := 0, 3+rng.Intn(5); i < n; i++ {
				rs = append(rs, rec(pCallRet, cosmosPrecompile, i, s.query(rng).in))
			}
			return script(rs...)
		}
		// node b answers others meanwhile
		for i, n := 0, 6+rng.Intn(10); i < n; i++ {
			in := hexBytes(mk(rng))
			var resp evmtypes.QueryCallResponse
			_ = grpc(b, 0, "/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: b.Accs[3].Bech(), ContractAddr: puppet.Hex(), Input: in, Value: math.ZeroInt()}, &resp)
			r.Count("queries_on_one_node", 1)
		}
		// what the blocks contain
		var txs [][]byte
		for i, acc := range a.Accs[:3] {
			n := a.Seq(acc.Acc)
			if i == 0 {
				// a deposit of a new denomination, with a look at it in the same transaction
				continue
			}
			txs = append(txs, a.Eth(acc, verifkit.EthTx{Type: 2, Nonce: n, To: &puppet, Data: mk(rng), Gas: 20_000_000, FeeCap: gasPrice(a)}))
		}
		newDenom++
		d := fmt.Sprintf("l2/%064x", newDenom)
		ask := script(rec(pCallRet, cosmosPrecompile, 1, pack(cosmosABI, "to_erc20", d)), rec(pCallRet, cosmosPrecompile, 2, pack(cosmosABI, "to_erc20", "uusdc")))
		seq, err := a.App.OPChildKeeper.GetNextL1Sequence(a.QCtx())
		must(err)
		dep := &opchildtypes.MsgFinalizeTokenDeposit{Sender: a.Val.Bech(), From: a.Accs[0].Bech(), To: a.Accs[0].Bech(), Amount: verifkit.Coin(d, 77), Sequence: seq, Height: 1, BaseDenom: "base" + fmt.Sprint(newDenom)}
		call := &evmtypes.MsgCall{Sender: a.Val.Bech(), ContractAddr: puppet.Hex(), Input: hexBytes(ask), Value: math.ZeroInt()}
		depTx := a.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{dep, call}, Signers: []*verifkit.Account{a.Val}, Gas: 10_000_000, Fee: anyFee(a, 10_000_000)})
		txs = append(txs, depTx)
		for i, n := 0, rng.Intn(3); i < n; i++ {
			_, _, _ = b.App.Simulate(txs[rng.Intn(len(txs))])
		}
		ra, rb := a.Block(txs...), b.Block(txs...)
		if ra == nil || rb == nil {
			r.Violate(id, "halt", "%v %v", a.HaltErr, b.HaltErr)
			return
		}
		r.Eval(1)
		r.Distinct(fmt.Sprintf("nodes|%d", len(txs)))
		if !bytes.Equal(ra.AppHash, rb.AppHash) {
			d := verifkit.Diff(a.Dump(), b.Dump())
			r.Violate(id, "nodes", "a node that answered queries differs at height %d:\n%s", a.Height, verifkit.DiffString(d, 6))
			return
		}
		for i := range txs {
			x, y := ra.TxResults[i], rb.TxResults[i]
			if x.Code != y.Code || x.GasUsed != y.GasUsed || !bytes.Equal(x.Data, y.Data) {
				r.Violate(id, "nodes", "tx %d at height %d: code %d gas %d, on a node that answered queries code %d gas %d", i, a.Height, x.Code, x.GasUsed, y.Code, y.GasUsed)
				return
			}
			if x.Code != 0 {
				r.Violate(id, "nodes", "tx %d at height %d failed: %s", i, a.Height, x.Log)
			}
		}
		// the deposited denomination was visible to the next message
		logs := eventLogs(ra.TxResults[len(txs)-1].Events)
		var got []byte
		for _, l := range logs {
			if e := l.ToEthLog(); e.Address == puppet && e.Topics[0] == common.BigToHash(big.NewInt(1)) {
				got = e.Data
			}
		}
		want := append(common.BigToHash(big.NewInt(1)).Bytes(), packOut("to_erc20", a.Contract(d))...)
		r.Eval(1)
		r.Count("looks_at_uncommitted_denominations", 1)
		if !bytes.Equal(got, want) {
			r.Violate(id, "uncommitted", "to_erc20(%s) right after its first deposit: %x, want %x", d, got, want)
		}
	}
}

// --- C04

// regWorld is the model of the registry.
type regWorld struct {
	c        *verifkit.Chain
	rng      *rand.Rand
	factory  common.Address
	ps       []common.Address
	toks     []common.Address // created by the factory
	accs     []common.Address
	allow    bool
	allowed  map[common.Address]bool // nil: anybody
	reg      map[common.Address]bool
	hold     map[[2]common.Address]bool
	nonce    map[common.Address]uint64
	expect   []string // of the logs
	stats    map[string]int
	n, id    int
	tokOwner map[common.Address]common.Address
}

type regAct struct {
	kind string
	id   int
	tgt  common.Address // puppet, account or token
	op   int
	bad  bool
	sub  *regFrame
}

type regFrame struct {
	acts []regAct
	end  string
}

type regSnap struct {
	reg   map[common.Address]bool
	hold  map[[2]common.Address]bool
	nonce map[common.Address]uint64
	own   map[common.Address]common.Address
	log   int
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (w *regWorld) snap() regSnap {
	return regSnap{cpm(w.reg), cpm(w.hold), cpm(w.nonce), cpm(w.tokOwner), len(w.expect)}
}

func (w *regWorld) restore(s regSnap) {
	w.reg, w.hold, w.nonce, w.tokOwner, w.expect = s.reg, s.hold, s.nonce, s.own, w.expect[:s.log]
}

func (w *regWorld) gen(depth int) *regFrame {
	f := &regFrame{end: "ok"}
	if depth > 0 && w.rng.Intn(4) == 0 {
		f.end = "revert"
	}
	for i, n := 0, 1+w.rng.Intn(5); i < n && w.n < 30; i++ {
		w.n++
		w.id++
		a := regAct{id: w.id, tgt: w.accs[w.rng.Intn(len(w.accs))]}
		switch w.rng.Intn(16) {
		case 0, 1, 2:
			a.kind = "register"
		case 3, 4, 5:
			a.kind = "store"
		case 6:
			a.kind = "factory-call" // by somebody else
			a.tgt = append(append([]common.Address{}, w.ps...), w.accs...)[w.rng.Intn(len(w.ps)+len(w.accs))]
		case 7, 8:
			a.kind = "is"
		case 9:
			a.kind = "create"
		case 10, 11:
			a.kind = "mint"
			if len(w.toks) > 0 {
				a.op = w.rng.Intn(len(w.toks))
			}
		case 12:
			a.kind = "ctor"
			a.bad = w.rng.Intn(3) == 0
		default:
			a.kind = "is"
			if depth < 4 {
				a.kind = "frame"
				a.op = []int{pCallCatch, pCallCatch, pDelegate, pCallcode}[w.rng.Intn(4)]
				a.tgt = w.ps[w.rng.Intn(len(w.ps))]
				a.sub = w.gen(depth + 1)
			}
		}
		f.acts = append(f.acts, a)
	}
	return f
}

func (w *regWorld) compile(f *regFrame) []byte {
	var rs []Rec
	for _, a := range f.acts {
		switch a.kind {
		case "register":
			rs = append(rs, rec(pCallRet, registryPrecompile, a.id, pack(registryABI, "register_erc20")))
		case "store":
			rs = append(rs, rec(pCallRet, registryPrecompile, a.id, pack(registryABI, "register_erc20_store", a.tgt)))
		case "is":
			rs = append(rs, rec([]int{pCallRet, pStaticRet}[a.id%2], registryPrecompile, a.id, pack(registryABI, "is_erc20_store_registered", a.tgt)))
		case "factory-call":
			rs = append(rs, rec(pCallRet, registryPrecompile, a.id, pack(registryABI, "register_erc20_from_factory", a.tgt)))
		case "create":
			rs = append(rs, rec(pCall, w.factory, nil, pack(factoryABI, "createERC20", fmt.Sprint("tok", a.id), "T", uint8(6))))
		case "mint":
			if len(w.toks) > 0 {
				rs = append(rs, rec(pCallCatch, w.toks[a.op], nil, pack(erc20ABI, "mint", a.tgt, big.NewInt(5))))
			}
		case "ctor":
			a2 := verifkit.NewAsm()
			in := pack(registryABI, "register_erc20")
			a2.MstoreBytes(0, in)
			a2.Call(vm.CALL, registryPrecompile, 0, 0, len(in), 600_000).Op(vm.POP)
			in = pack(registryABI, "register_erc20_store", a.tgt)
			a2.MstoreBytes(0, in)
			a2.Call(vm.CALL, registryPrecompile, 0, 0, len(in), 600_000).Op(vm.POP)
			if a.bad {
				a2.RevertMem(0, 0)
			} else {
				a2.ReturnMem(0, 0)
			}
			rs = append(rs, rec(pCreateCatch, nil, nil, a2.Bytes()))
		case "frame":
			rs = append(rs, rec(a.op, a.tgt, nil, w.compile(a.sub)))
		}
	}
	if f.end == "revert" {
		rs = append(rs, rec(pRevert, nil, nil, nil))
	}
	return script(rs...)
}

func (w *regWorld) mayRegister(self common.Address) bool {
	if !w.allow {
		return false
	}
	return w.reg[self] || w.allowed == nil || w.allowed[self]
}

func (w *regWorld) say(a regAct, ok bool, what bool) {
	v := "-"
	if ok {
		v = fmt.Sprint(what)
	}
	w.expect = append(w.expect, fmt.Sprintf("%d:%s", a.id, v))
}

func (w *regWorld) run(self common.Address, f *regFrame) {
	s := w.snap()
	for _, a := range f.acts {
		switch a.kind {
		case "register":
			ok := w.mayRegister(self)
			if ok {
				w.reg[self] = true
			}
			w.say(a, ok, true)
		case "store":
			if w.reg[self] {
				w.hold[[2]common.Address{a.tgt, self}] = true
			}
			w.say(a, true, true)
		case "is":
			w.say(a, true, w.hold[[2]common.Address{a.tgt, self}])
		case "factory-call":
			w.say(a, false, false)
		case "create":
			t := createAddr(w.factory, w.nonce[w.factory])
			w.nonce[w.factory]++
			w.reg[t] = true
			w.tokOwner[t] = self
		case "mint":
			if len(w.toks) > 0 && w.tokOwner[w.toks[a.op]] == self && !w.c.App.BankKeeper.BlockedAddr(a.tgt.Bytes()) {
				w.hold[[2]common.Address{a.tgt, w.toks[a.op]}] = true
			}
		case "ctor":
			n := createAddr(self, w.nonce[self])
			w.nonce[self]++
			if !a.bad && w.mayRegister(n) {
				w.reg[n] = true
				w.hold[[2]common.Address{a.tgt, n}] = true
			}
		case "frame":
			ctx := a.tgt
			if a.op == pDelegate || a.op == pCallcode {
				ctx = self
			}
			w.run(ctx, a.sub)
		}
		w.stats[a.kind]++
	}
	if f.end == "revert" {
		w.restore(s)
	}
}

func (f *regFrame) String() string {
	var o []string
	for _, a := range f.acts {
		s := a.kind
		if a.sub != nil {
			s = opNames[a.op] + a.sub.String()
		}
		if a.bad {
			s += "!"
		}
		o = append(o, s)
	}
	return "(" + strings.Join(o, " ") + ":" + f.end + ")"
}

// compare judges the two registers.
func (w *regWorld) compare(r *R, id string, ctx sdk.Context, was map[string]bool, doc string) {
	reg, hold := registry(w.c, ctx)
	for a := range reg {
		if !was[a] && !w.reg[common.HexToAddress(a)] {
			r.Violate(id, "registered", "%s is registered, it should not be\n%s", a, doc)
		}
	}
	for a, ok := range w.reg {
		if ok && !reg[a.Hex()] {
			r.Violate(id, "registered", "%s is not registered, it should be\n%s", a, doc)
		}
	}
	for a := range was {
		if len(a) < 60 && !reg[a] || len(a) > 60 && !hold[a] {
			r.Violate(id, "forgotten", "%s was registered\n%s", a, doc)
		}
	}
	for p := range hold {
		if !was[p] && !w.hold[[2]common.Address{common.HexToAddress(p[:42]), common.HexToAddress(p[43:])}] {
			r.Violate(id, "holding", "holdings list contains %s, it should not\n%s", p, doc)
		}
	}
	for p, ok := range w.hold {
		if ok && !hold[p[0].Hex()+"/"+p[1].Hex()] {
			r.Violate(id, "holding", "holdings list of %s lacks %s\n%s", p[0], p[1], doc)
		}
	}
}

// registry is what the registers contain.
func registry(c *verifkit.Chain, ctx sdk.Context) (reg, hold map[string]bool) {
	reg, hold = map[string]bool{}, map[string]bool{}
	k := c.App.EVMKeeper
	it, err := k.ERC20s.Iterate(unlimited(ctx), nil)
	must(err)
	for ; it.Valid(); it.Next() {
		key, err := it.Key()
		must(err)
		reg[common.BytesToAddress(key).Hex()] = true
	}
	it.Close()
	it2, err := k.ERC20Stores.Iterate(unlimited(ctx), nil)
	must(err)
	for ; it2.Valid(); it2.Next() {
		key, err := it2.Key()
		must(err)
		hold[common.BytesToAddress(key.K1()).Hex()+"/"+common.BytesToAddress(key.K2()).Hex()] = true
	}
	it2.Close()
	return
}

func monC04(r *R) {
	r.Rule = "distinct = call structures of executions with registrations, holdings and factory creations in them, per policy"
	c := base()
	r.ParCase("model", r.N(500, 15000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		k := c.App.EVMKeeper
		fa, err := k.GetERC20FactoryAddr(unlimited(ctx))
		must(err)
		w := &regWorld{c: c, rng: rng, factory: fa, reg: map[common.Address]bool{}, hold: map[[2]common.Address]bool{}, nonce: map[common.Address]uint64{}, stats: map[string]int{}, tokOwner: map[common.Address]common.Address{}}
		for i := 0; i < 4; i++ {
			_, addr, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, verifkit.Deployer(puppetCode()), nil, nil)
			must(err)
			w.ps = append(w.ps, addr)
			w.nonce[addr] = 1
		}
		w.accs = []common.Address{c.Accs[1].Eth, c.Accs[2].Eth, rcpt("c04", 1), w.ps[0], common.BytesToAddress(authtypes.NewModuleAddress(opchildtypes.ModuleName))}
		w.nonce[fa] = c.App.AccountKeeper.GetAccount(unlimited(ctx), fa.Bytes()).GetSequence()
		// policy
		policy := "open"
		w.allow = true
		p, err := k.Params.Get(unlimited(ctx))
		must(err)
		switch rng.Intn(5) {
		case 0:
			policy, w.allow, p.AllowCustomERC20 = "closed", false, false
		case 1:
			policy, w.allowed = "list", map[common.Address]bool{w.ps[0]: true, w.ps[2]: true}
			p.AllowedCustomERC20s = []string{w.ps[0].Hex(), strings.ToLower(w.ps[2].Hex())}
		}
		must(k.Params.Set(ctx, p))
		was := map[string]bool{}
		a, b := registry(c, ctx)
		for x := range a {
			was[x] = true
		}
		for x := range b {
			was[x] = true
		}
		var docs []string
		for i, n := 0, 1+rng.Intn(4); i < n; i++ {
			w.n = 0
			f := w.gen(0)
			root := w.ps[rng.Intn(len(w.ps))]
			data := w.compile(f)
			w.expect = nil
			docs = append(docs, fmt.Sprintf("%s -> %s%s", policy, root, f))
			doc := strings.Join(docs, "\n")
			o := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: root, data: data, gas: 300_000_000}, false, true, nil)
			if o.err != nil {
				r.Violate(id, "execution", "%v\n%s", o.err, doc)
				return
			}
			w.run(root, f)
			for t := range w.tokOwner {
				if !containsAddr(w.toks, t) {
					w.toks = append(w.toks, t)
				}
			}
			sortAddrs(w.toks)
			var got []string
			for _, l := range o.logs {
				e := l.ToEthLog()
				if len(e.Topics) != 1 || !containsAddr(w.ps, e.Address) {
					continue
				}
				v := "-"
				if word(e.Data, 0).Sign() > 0 {
					v = fmt.Sprint(word(e.Data, 1).Sign() > 0)
				}
				got = append(got, fmt.Sprintf("%d:%s", e.Topics[0].Big().Int64(), v))
			}
			r.Eval(1)
			r.Distinct(policy + f.String())
			r.Sample("%s: %s", id, docs[len(docs)-1])
			if strings.Join(got, " ") != strings.Join(w.expect, " ") {
				r.Violate(id, "answer", "the registry answered %v, want %v\n%s", got, w.expect, doc)
				return
			}
			w.compare(r, id, ctx, was, doc)
			// what the bank lists
			for _, acc := range w.accs {
				var l []string
				coins, _, err := k.ERC20Keeper().GetPaginatedBalances(unlimited(ctx), nil, acc.Bytes())
				must(err)
				for _, x := range coins {
					l = append(l, x.Denom)
				}
				n := 0
				for p, ok := range w.hold {
					if ok && p[0] == acc {
						n++
						if !containsStr(l, "evm/"+p[1].Hex()[2:]) {
							r.Violate(id, "listing", "the balances of %s do not list %s\n%s", acc, p[1], doc)
						}
					}
				}
				for p := range was {
					if len(p) > 60 && p[:42] == acc.Hex() {
						n++
					}
				}
				r.Eval(1)
				if n != len(l) {
					r.Violate(id, "listing", "the balances of %s list %v, holdings %d\n%s", acc, l, n, doc)
				}
			}
		}
		for k, v := range w.stats {
			r.Count(k, v)
		}
		// registering what is registered changes nothing
		for a := range w.reg {
			if !containsAddr(w.ps, a) || !w.allow {
				continue
			}
			acc := w.accs[rng.Intn(len(w.accs))]
			in := []Rec{rec(pCall, registryPrecompile, nil, pack(registryABI, "register_erc20"))}
			if w.hold[[2]common.Address{acc, a}] {
				in = append(in, rec(pCall, registryPrecompile, nil, pack(registryABI, "register_erc20_store", acc)))
			}
			o1 := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: a, data: script(in...), gas: 30_000_000}, false, false, nil)
			o2 := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: a, data: nil, gas: 30_000_000}, false, false, nil)
			r.Eval(1)
			r.Count("registered_again", 1)
			if o1.err != nil || o2.err != nil {
				r.Violate(id, "again", "%v %v", o1.err, o2.err)
			} else if d := verifkit.Diff(c.DumpCtx(o2.ctx), c.DumpCtx(o1.ctx)); len(d) > 0 {
				r.Violate(id, "again", "registering %s again changed\n%s", a, verifkit.DiffString(d, 6))
			}
		}
		// users are no contracts: their direct calls register themselves only, from the factory never
		for _, in := range [][]byte{pack(registryABI, "register_erc20_from_factory", w.ps[1])} {
			o := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: registryPrecompile, data: in, gas: 3_000_000}, false, false, nil)
			r.Eval(1)
			if o.err == nil {
				r.Violate(id, "factory", "a user registered a token on the factory's behalf")
			}
		}
		// in a static call nothing can be registered
		for _, in := range [][]byte{pack(registryABI, "register_erc20"), pack(registryABI, "register_erc20_store", w.accs[0]), pack(registryABI, "register_erc20_from_factory", w.ps[1])} {
			o := runEVM(c, ctx, evmTx{kind: 2, from: c.Accs[2].Eth, to: w.ps[1], data: script(rec(pStaticRet, registryPrecompile, 1, in)), gas: 3_000_000}, false, false, nil)
			r.Eval(1)
			if o.err != nil || len(o.logs) != 1 || word(o.logs[0].ToEthLog().Data, 0).Sign() != 0 {
				r.Violate(id, "static", "a static call of the registry was not refused: %v %v", o.err, o.logs)
			}
		}
	})
	r.ParCase("hostile", r.N(60, 2000), func(id string, rng *rand.Rand) { c04Hostile(r, id, rng) })
	// the registers over real blocks
	r.hists("hist", 5, 150, &watch{blocks: 8, start: func(x *hrun) {
		x.state["reg"], x.state["hold"] = registry(x.c, x.c.QCtx())
	}, block: func(x *hrun, txs []*TxMeta) {
		reg, hold := registry(x.c, x.c.QCtx())
		for k := range x.state["reg"].(map[string]bool) {
			if !reg[k] {
				x.bad("forgotten", "token %s", k)
			}
		}
		for k := range x.state["hold"].(map[string]bool) {
			if !hold[k] {
				x.bad("forgotten", "holding %s", k)
			}
		}
		x.state["reg"], x.state["hold"] = reg, hold
		for k := range hold {
			x.r.Eval(1)
			if !reg[k[43:]] {
				x.bad("holding", "holding %s of a token that is not registered", k)
			}
		}
		for _, d := range x.L.denoms() {
			for _, a := range x.L.holders() {
				if x.L.Bal(d, a).Sign() > 0 {
					x.r.Eval(1)
					if !hold[a.Hex()+"/"+x.tokenAddr(d).Hex()] {
						x.bad("holding", "%s holds %s of %s (%s), but it is not in its list", x.nameOf(a), x.L.Bal(d, a), d, x.tokenAddr(d))
					}
				}
			}
		}
	}})
}

func containsAddr(l []common.Address, a common.Address) bool {
	for _, x := range l {
		if x == a {
			return true
		}
	}
	return false
}

func containsStr(l []string, a string) bool {
	for _, x := range l {
		if x == a {
			return true
		}
	}
	return false
}

// hostile token programs: what they answer to anything.
var hostileKinds = []string{"revert", "invalid", "loop", "empty", "short", "long", "max", "bool", "destroyed", "nocode", "negative"}

func hostileCode(kind string) []byte {
	a := verifkit.NewAsm()
	// first call data word selects: register at call with 1 byte of data
	a.Op(vm.CALLDATASIZE).Push(1).Op(vm.EQ).PushLabel("setup").Op(vm.JUMPI)
	switch kind {
	case "revert":
		a.RevertMem(0, 64)
	case "invalid":
		a.Op(vm.INVALID)
	case "loop":
		a.Label("again").PushLabel("again").Op(vm.JUMP)
	case "empty":
		a.Op(vm.STOP)
	case "short":
		a.Push(7).Push(0).Op(vm.MSTORE).ReturnMem(0, 31)
	case "long":
		a.Push(7).Push(0).Op(vm.MSTORE).ReturnMem(0, 3200)
	case "max":
		a.Push(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	case "negative":
		a.Push(new(big.Int).Lsh(big.NewInt(1), 255)).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	case "bool":
		a.Push(1).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	default:
		a.Push(9).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	}
	a.Label("setup").Op(vm.STOP)
	return a.Bytes()
}

// c04Hostile registers tokens which misbehave when asked; all others stay listed as they are.
func c04Hostile(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	k := c.App.EVMKeeper
	victim := c.Accs[1]
	want := map[string]*big.Int{}
	for _, x := range c.App.BankKeeper.GetAllBalances(unlimited(ctx), victim.Acc) {
		want[x.Denom] = x.Amount.BigInt()
	}
	supply := map[string]*big.Int{}
	c.App.BankKeeper.IterateTotalSupply(unlimited(ctx), func(x sdk.Coin) bool {
		supply[x.Denom] = x.Amount.BigInt()
		return false
	})
	var kinds []string
	maxTok := []string{}
	for i, n := 0, 1+rng.Intn(4); i < n; i++ {
		kind := hostileKinds[rng.Intn(len(hostileKinds))]
		kinds = append(kinds, kind)
		init := verifkit.NewAsm()
		for _, in := range [][]byte{pack(registryABI, "register_erc20"), pack(registryABI, "register_erc20_store", victim.Eth)} {
			init.MstoreBytes(0, in)
			init.Call(vm.CALL, registryPrecompile, 0, 0, len(in), nil).Op(vm.POP)
		}
		var pre []byte = init.Bytes()
		var code []byte
		switch kind {
		case "destroyed":
			code = append(pre, verifkit.NewAsm().Op(vm.CALLER, vm.SELFDESTRUCT).Bytes()...)
		case "nocode":
			code = append(pre, verifkit.NewAsm().ReturnMem(0, 0).Bytes()...)
		default:
			d := verifkit.Deployer(hostileCode(kind))
			off := int(d[5])<<8 | int(d[6])
			off += len(pre)
			d[5], d[6] = byte(off>>8), byte(off)
			code = append(pre, d...)
		}
		_, addr, _, err := k.EVMCreate(limited(ctx, 20_000_000), c.Accs[0].Eth, code, nil, nil)
		if err != nil {
			r.Violate(id, "hostile-deploy", "%s: %v", kind, err)
			return
		}
		d := "evm/" + addr.Hex()[2:]
		var v *big.Int
		switch kind {
		case "max":
			v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
			maxTok = append(maxTok, d)
		case "negative":
			v = new(big.Int).Lsh(big.NewInt(1), 255)
		case "bool":
			v = big.NewInt(1)
		case "long":
			v = big.NewInt(7)
		default:
			v = nil
		}
		if v != nil {
			want[d], supply[d] = v, v
		}
	}
	what := strings.Join(kinds, "+")
	r.Distinct("hostile|" + what)
	check := func(where string, got sdk.Coins, want map[string]*big.Int) {
		r.Eval(1)
		m := map[string]*big.Int{}
		for _, x := range got {
			if !x.Amount.IsZero() {
				m[x.Denom] = x.Amount.BigInt()
			}
		}
		for d, v := range want {
			if m[d] == nil || m[d].Cmp(v) != 0 {
				r.Violate(id, "hostile", "with hostile tokens (%s) %s has %v of %s, want %v", what, where, m[d], d, v)
			}
		}
		for d := range m {
			if want[d] == nil {
				r.Violate(id, "hostile", "with hostile tokens (%s) %s has %s, out of nothing", what, where, d)
			}
		}
	}
	q := unlimited(ctx)
	bk := c.App.BankKeeper
	check("GetAllBalances", bk.GetAllBalances(q, victim.Acc), want)
	check("SpendableCoins", bk.SpendableCoins(q, victim.Acc), want)
	var it sdk.Coins
	bk.IterateAccountBalances(q, victim.Acc, func(x sdk.Coin) bool { it = append(it, x); return false })
	check("IterateAccountBalances", it, want)
	it = nil
	bk.IterateTotalSupply(unlimited(ctx), func(x sdk.Coin) bool { it = append(it, x); return false })
	check("IterateTotalSupply", it, supply)
	res, err := bk.AllBalances(unlimited(ctx), &banktypes.QueryAllBalancesRequest{Address: victim.Bech()})
	if err != nil {
		r.Violate(id, "hostile", "AllBalances: %v", err)
	} else {
		check("Query/AllBalances", res.Balances, want)
	}
	res2, err := bk.TotalSupply(unlimited(ctx), &banktypes.QueryTotalSupplyRequest{})
	if err != nil {
		r.Violate(id, "hostile", "TotalSupply: %v", err)
	} else {
		check("Query/TotalSupply", res2.Supply, supply)
	}
	if bz, err := json.Marshal(it); err != nil || len(bz) == 0 {
		r.Violate(id, "hostile", "%v", err)
	}
}
