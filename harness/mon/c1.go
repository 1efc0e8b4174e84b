package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/verifkit"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	monitors["C01"] = monC01
	monitors["C02"] = monC02
}

// --- C01

// pathFrame is a frame between the user and the request.
type pathFrame struct {
	op   int // pCallCatch pDelegate pCallcode pStatic, or 100: constructor
	code common.Address
	ctx  common.Address
}

var opNames = map[int]string{pCallCatch: "call", pDelegate: "delegatecall", pCallcode: "callcode", pStatic: "staticcall", pCall: "call", 100: "constructor", -1: "direct"}

func execData(js string) []byte { return pack(cosmosABI, "execute_cosmos", js) }

// c01Request is a message naming signer.
func c01Request(rng *rand.Rand, kind string, signer sdk.AccAddress, to common.Address, victim sdk.AccAddress) string {
	s, v := signer.String(), victim.String()
	auth := authtypes.NewModuleAddress(opchildtypes.ModuleName).String()
	switch kind {
	case "send":
		return sendMsgJSON(signer, to.Bytes(), "uusdc", 7)
	case "evm-call":
		return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"%s","value":"0"}`, s, base().Contract("uusdc").Hex(), hexBytes(pack(erc20ABI, "transfer", to, big.NewInt(7))))
	case "evm-create":
		return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCreate","sender":"%s","code":"%s","value":"0"}`, s, hexBytes(verifkit.Deployer([]byte{0})))
	case "evm-create2":
		return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCreate2","sender":"%s","code":"%s","value":"0","salt":"7"}`, s, hexBytes(verifkit.Deployer([]byte{0})))
	case "withdraw":
		return fmt.Sprintf(`{"@type":"/opinit.opchild.v1.MsgInitiateTokenWithdrawal","sender":"%s","to":"%s","amount":{"denom":"uusdc","amount":"5"}}`, s, s)
	case "grant":
		return fmt.Sprintf(`{"@type":"/cosmos.feegrant.v1beta1.MsgGrantAllowance","granter":"%s","grantee":"%s","allowance":{"@type":"/cosmos.feegrant.v1beta1.BasicAllowance","spend_limit":[],"expiration":null}}`, s, sdk.AccAddress(to.Bytes()))
	case "authz-grant":
		return fmt.Sprintf(`{"@type":"/cosmos.authz.v1beta1.MsgGrant","granter":"%s","grantee":"%s","grant":{"authorization":{"@type":"/cosmos.authz.v1beta1.GenericAuthorization","msg":"/cosmos.bank.v1beta1.MsgSend"},"expiration":null}}`, s, sdk.AccAddress(to.Bytes()))
	case "authz-exec": // on behalf of somebody who granted nothing
		return fmt.Sprintf(`{"@type":"/cosmos.authz.v1beta1.MsgExec","grantee":"%s","msgs":[%s]}`, s, sendMsgJSON(victim, to.Bytes(), "uusdc", 7))
	case "params":
		return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgUpdateParams","authority":"%s","params":{"fee_denom":"uusdc"}}`, auth)
	case "execute-messages":
		return fmt.Sprintf(`{"@type":"/opinit.opchild.v1.MsgExecuteMessages","sender":"%s","messages":[%s]}`, s, sendMsgJSON(victim, to.Bytes(), "uusdc", 7))
	case "fee-pool":
		return fmt.Sprintf(`{"@type":"/opinit.opchild.v1.MsgSpendFeePool","authority":"%s","recipient":"%s","amount":[{"denom":"umin","amount":"1"}]}`, auth, s)
	case "multi":
		return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgMultiSend","inputs":[{"address":"%s","coins":[{"denom":"uusdc","amount":"5"}]},{"address":"%s","coins":[{"denom":"uusdc","amount":"5"}]}],"outputs":[{"address":"%s","coins":[{"denom":"uusdc","amount":"10"}]}]}`, s, v, sdk.AccAddress(to.Bytes()))
	case "ibc":
		return fmt.Sprintf(`{"@type":"/ibc.applications.transfer.v1.MsgTransfer","source_port":"transfer","source_channel":"channel-0","token":{"denom":"uusdc","amount":"5"},"sender":"%s","receiver":"x","timeout_height":{"revision_number":"0","revision_height":"0"},"timeout_timestamp":"99999999999999999","memo":""}`, s)
	case "gov":
		return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgUpdateParams","authority":"%s","params":{"fee_denom":"uusdc"}}`, authtypes.NewModuleAddress(govtypes.ModuleName))
	}
	panic(kind)
}

var c01Kinds = []string{"send", "send", "send", "send", "evm-call", "evm-call", "evm-create", "evm-create2", "withdraw", "grant", "authz-grant", "authz-exec", "params", "execute-messages", "fee-pool", "multi", "ibc", "gov"}

func monC01(r *R) {
	r.Rule = "distinct = (call path of the requesting frame, kind of call of the precompile, kind of message, relation of its signer to the path)"
	c := base()
	r.ParCase("path", r.N(1500, 40000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		k := c.App.EVMKeeper
		own := c.Accs[0]
		n0 := nonceMap(c, ctx)[own.Eth]
		var ps []common.Address
		for i := 0; i < 4; i++ {
			_, addr, _, err := k.EVMCreate(ctx, own.Eth, verifkit.Deployer(puppetCode()), nil, nil)
			must(err)
			ps = append(ps, addr)
			must(c.App.BankKeeper.SendCoins(ctx, c.Accs[1].Acc, addr.Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 1000), verifkit.Coin(verifkit.FeeDenom, 1000))))
		}
		_ = n0
		user := c.Accs[2]
		caller, callerAcc := user.Eth, user.Acc
		long := verifkit.NewLongAccount(id)
		isLong := rng.Intn(5) == 0
		if isLong {
			must(c.App.BankKeeper.SendCoins(ctx, c.Accs[1].Acc, long.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1000))))
			// its first call makes its account in the EVM
			_, err := evmkeeper.NewMsgServerImpl(k).Call(ctx, &evmtypes.MsgCall{Sender: long.Bech(), ContractAddr: ps[0].Hex(), Input: "0x", Value: math.ZeroInt()})
			must(err)
			caller, callerAcc = long.Eth, long.Acc
		}
		// the path
		var path []pathFrame
		cur := caller
		depth := rng.Intn(5)
		static := false
		ctor := false
		for i := 0; i < depth; i++ {
			f := pathFrame{op: []int{pCallCatch, pCallCatch, pDelegate, pCallcode, pStatic}[rng.Intn(5)], code: ps[rng.Intn(4)]}
			if i == 0 {
				f.op = pCall
			}
			switch f.op {
			case pDelegate, pCallcode:
				f.ctx = cur
			default:
				f.ctx = f.code
			}
			static = static || f.op == pStatic
			cur = f.ctx
			path = append(path, f)
		}
		lop := []int{pCall, pCallCatch, pDelegate, pCallcode, pStatic}[rng.Intn(5)]
		if depth == 0 {
			lop = pCall
		}
		if depth > 0 && !static && rng.Intn(6) == 0 {
			// the last frame is a constructor
			ctor = true
			cur = createAddr(cur, c.App.AccountKeeper.GetAccount(ctx, cur.Bytes()).GetSequence())
			lop = pCall
			must(c.App.BankKeeper.SendCoins(ctx, c.Accs[1].Acc, cur.Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 1000))))
		}
		actor := sdk.AccAddress(cur.Bytes())
		if depth == 0 {
			actor = callerAcc
		}
		// the signer named
		type cand struct {
			rel string
			a   sdk.AccAddress
		}
		cands := []cand{{"self", actor}, {"self", actor}, {"self", actor}, {"origin", callerAcc}, {"other-user", c.Accs[3].Acc}, {"other-contract", ps[rng.Intn(4)].Bytes()},
			{"deployer", own.Acc}, {"module", authtypes.NewModuleAddress(opchildtypes.ModuleName)}, {"precompile", cosmosPrecompile.Bytes()}, {"chain", common.HexToAddress("0x1").Bytes()}}
		if isLong {
			cands = append(cands, cand{"shorthand", long.Eth.Bytes()})
		}
		// longer addresses which only contain the one who acts
		pad := make([]byte, 12)
		rng.Read(pad)
		cands = append(cands, cand{"tail", append(append(sdk.AccAddress{}, pad...), cur.Bytes()...)}, cand{"head", append(append(sdk.AccAddress{}, cur.Bytes()...), pad...)})
		for i, f := range path {
			cands = append(cands, cand{fmt.Sprintf("code-%d", len(path)-i), f.code.Bytes()})
		}
		cd := cands[rng.Intn(len(cands))]
		kind := c01Kinds[rng.Intn(len(c01Kinds))]
		if static && !strings.HasPrefix(kind, "send") {
			kind = "send"
		}
		to := rcpt("c01", 1)
		js := c01Request(rng, kind, cd.a, to, c.Accs[3].Acc)
		build := func(js string) (common.Address, []byte) {
			data := execData(js)
			if depth == 0 {
				return cosmosPrecompile, data
			}
			var in []byte
			if ctor {
				a := verifkit.NewAsm()
				a.MstoreBytes(0, data)
				a.Call(vm.CALL, cosmosPrecompile, 0, 0, len(data), nil).Op(vm.POP).ReturnMem(0, 0)
				in = script(rec(pCreateCatch, nil, nil, a.Bytes()))
			} else {
				in = script(rec(lop, cosmosPrecompile, nil, data))
			}
			for i := len(path) - 1; i > 0; i-- {
				in = script(rec(path[i].op, path[i].code, nil, in))
			}
			return path[0].code, in
		}
		run := func(js string) execOut {
			t, d := build(js)
			return runEVM(c, ctx, evmTx{kind: 2, from: caller, to: t, data: d, gas: 30_000_000}, false, false, nil)
		}
		names := []string{}
		for _, f := range path {
			names = append(names, opNames[f.op])
		}
		if ctor {
			names = append(names, "constructor")
		}
		how := strings.Join(append(names, opNames[lop]), ">")
		rel := cd.rel
		if cd.a.Equals(actor) {
			rel = "self"
		}
		// the sole signer named by these is fixed
		self := rel == "self" && kind != "params" && kind != "fee-pool" && kind != "gov" && kind != "multi"
		refused := !self || static || lop == pStatic
		o := run(js)
		none := run("junk")
		r.Eval(1)
		r.Distinct(how + "|" + kind + "|" + rel)
		r.Count(map[bool]string{true: "requests_refused", false: "requests_allowed"}[refused], 1)
		r.Sample("%s: %s, %s signed by %s: refused %v", id, how, kind, rel, refused)
		sig := "forged"
		switch {
		case !self:
		case static && lop != pStatic:
			sig = "static-nested"
		case lop == pStatic:
			sig = "static-direct"
		}
		if refused {
			// the same as a request that cannot be read
			if (o.err == nil) != (none.err == nil) {
				// an accepted request which fails fails the execution
				r.Violate(id, sig, "%s, %s signed by %s (%s): %v, a request that is refused: %v", how, kind, rel, js, o.err, none.err)
				return
			}
			if o.err == nil {
				if d := verifkit.Diff(c.DumpCtx(none.ctx), c.DumpCtx(o.ctx)); len(d) > 0 {
					r.Violate(id, sig, "%s, %s signed by %s (%s) changed\n%s", how, kind, rel, js, verifkit.DiffString(d, 6))
				}
			}
			return
		}
		if lop == pDelegate && o.err == nil && len(verifkit.Diff(c.DumpCtx(none.ctx), c.DumpCtx(o.ctx))) == 0 {
			// a request by delegatecall may be refused as well
			r.Count("delegated_requests_refused", 1)
			return
		}
		if kind == "ibc" || kind == "authz-exec" || kind == "execute-messages" || kind == "withdraw" || kind == "multi" {
			// accepted, but the message itself fails and with it everything
			if o.err == nil {
				r.Violate(id, "lost", "%s, %s signed by %s: should have failed", how, kind, rel)
			}
			return
		}
		if o.err != nil {
			r.Violate(id, "refused", "%s, %s signed by %s: %v", how, kind, rel, o.err)
			return
		}
		d := verifkit.Diff(c.DumpCtx(none.ctx), c.DumpCtx(o.ctx))
		if len(d) == 0 {
			r.Violate(id, "refused", "%s, %s signed by %s did nothing", how, kind, rel)
		}
		if kind == "send" || kind == "evm-call" {
			if b := c.App.BankKeeper.GetBalance(unlimited(o.ctx), to.Bytes(), "uusdc").Amount.Int64(); b != 7 {
				r.Violate(id, "effect", "%s, %s signed by %s moved %d", how, kind, rel, b)
			}
		}
	})
	// an execution which is static as a whole changes nothing at all
	r.ParCase("static", r.N(60, 2000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		t := newTree(rng, c, ctx, false)
		if t.deploy(c, ctx) != nil {
			return
		}
		before := c.DumpCtx(ctx)
		func() {
			defer func() { _ = recover() }()
			_, _ = c.App.EVMKeeper.EVMStaticCall(limited(ctx, 100_000_000), c.Accs[2].Eth, t.root.code, make([]byte, 32), nil)
		}()
		p := ctx
		for _, in := range [][]byte{execData(sendMsgJSON(c.Accs[2].Acc, rcpt("st", 1).Bytes(), "uusdc", 3)), pack(registryABI, "register_erc20")} {
			for _, to := range []common.Address{cosmosPrecompile, registryPrecompile} {
				_, _ = c.App.EVMKeeper.EVMStaticCall(limited(p, 10_000_000), c.Accs[2].Eth, to, in, nil)
			}
		}
		r.Eval(1)
		r.Count("static_executions", 1)
		if d := verifkit.Diff(before, c.DumpCtx(ctx)); len(d) > 0 {
			r.Violate(id, "static-execution", "a static execution changed\n%s\n%s", verifkit.DiffString(d, 6), t)
		}
	})
	// the same in real blocks: histories whose contracts ask for messages of others
	r.hists("hist", 6, 200, &watch{blocks: 6, start: func(x *hrun) {
		x.Weights = map[string]int{"script": 40, "msgcall": 40}
	}, block: func(x *hrun, txs []*TxMeta) {
		x.outcomes(txs, nil)
		x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
	}})
}

// --- C02

// cnode is a frame which asks for messages.
type cact struct {
	bad   int
	kind  string // log give send mcall call
	id    int
	to    int // puppet
	amt   int64
	catch bool
	sub   *cframe
}

type cframe struct {
	self int
	acts []cact
	end  string
}

type c02 struct {
	c     *verifkit.Chain
	rng   *rand.Rand
	ps    []common.Address
	bal   map[int]int64
	id    int
	n     int
	inv   int
	stats map[string]int
}

func (w *c02) gen(self, depth int) *cframe {
	f := &cframe{self: self, end: "ok"}
	if depth > 0 && w.rng.Intn(4) == 0 {
		f.end = "revert"
		if w.inv == 0 && w.rng.Intn(2) == 0 {
			f.end = "invalid" // takes nearly all gas
			w.inv++
		}
	}
	for i, n := 0, 1+w.rng.Intn(5); i < n && w.n < 24; i++ {
		w.id++
		w.n++
		a := cact{id: w.id, to: w.rng.Intn(len(w.ps)), amt: int64(1 + w.rng.Intn(60)), catch: w.rng.Intn(6) > 0}
		switch w.rng.Intn(10) {
		case 0, 1:
			a.kind = "log"
		case 2, 3:
			a.kind = "give"
			if w.rng.Intn(12) == 0 {
				a.amt = 1 << 40
			}
		case 4, 5, 6:
			a.kind = "send"
			if w.rng.Intn(25) == 0 {
				a.amt = 1 << 40
				a.bad = w.rng.Intn(4)
			}
		case 7:
			a.kind = "log"
			if depth < 3 {
				a.kind = "mcall"
				a.sub = w.gen(a.to, depth+1)
				if w.rng.Intn(3) > 0 {
					a.sub.end = "ok"
				}
			}
		default:
			a.kind = "log"
			if depth < 4 {
				a.kind = "call"
				a.sub = w.gen(a.to, depth+1)
			}
		}
		f.acts = append(f.acts, a)
	}
	return f
}

func (w *c02) compile(f *cframe) []byte {
	var rs []Rec
	self := sdk.AccAddress(w.ps[f.self].Bytes())
	for _, a := range f.acts {
		op := pCall
		if a.catch {
			op = pCallCatch
		}
		switch a.kind {
		case "log":
			rs = append(rs, rec(pLog, 1, a.id, nil))
		case "give":
			rs = append(rs, rec(op, w.c.Contract("uusdc"), nil, pack(erc20ABI, "transfer", w.ps[a.to], big.NewInt(a.amt))))
		case "send":
			js := sendMsgJSON(self, rcpt("c02", a.id).Bytes(), "uusdc", a.amt)
			switch a.bad { // messages which are no good by themselves
			case 1:
				js = fmt.Sprintf(`{"@type":"/ibc.applications.transfer.v1.MsgTransfer","source_port":"transfer","source_channel":"channel-0","token":{"denom":"uusdc","amount":"5"},"sender":"%s","receiver":"","timeout_height":{"revision_number":"0","revision_height":"0"},"timeout_timestamp":"99999999999999999","memo":""}`, self)
			case 2:
				js = fmt.Sprintf(`{"@type":"/ibc.applications.transfer.v1.MsgTransfer","source_port":"%s","source_channel":"channel-0","token":{"denom":"uusdc","amount":"0"},"sender":"%s","receiver":"x","timeout_height":{"revision_number":"0","revision_height":"0"},"timeout_timestamp":"99999999999999999","memo":""}`, []string{"", "transfer"}[a.id%2], self)
			case 3:
				js = fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"0x","value":"-%d"}`, self, w.ps[a.to].Hex(), a.id)
			}
			rs = append(rs, rec(pCall, cosmosPrecompile, nil, execData(js)))
		case "mcall":
			js := fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"%s","value":"0"}`, self, w.ps[a.to].Hex(), hexBytes(w.compile(a.sub)))
			rs = append(rs, rec(pCall, cosmosPrecompile, nil, execData(js)))
		case "call":
			rs = append(rs, rec(op, w.ps[a.to], nil, w.compile(a.sub)))
		}
	}
	switch f.end {
	case "revert":
		rs = append(rs, rec(pRevert, nil, nil, nil))
	case "invalid":
		rs = append(rs, rec(pInvalid, nil, nil, nil))
	}
	return script(rs...)
}

type c02Req struct {
	self int
	a    *cact
}

// frame runs the EVM part; trace gets what its surviving frames log.
func (w *c02) frame(f *cframe, trace *[]string, reqs *[]c02Req) bool {
	for i := range f.acts {
		a := &f.acts[i]
		ok := true
		switch a.kind {
		case "log":
			*trace = append(*trace, fmt.Sprintf("L%d", a.id))
		case "give":
			if w.bal[f.self] < a.amt {
				ok = false
			} else {
				w.bal[f.self] -= a.amt
				w.bal[a.to] += a.amt
				*trace = append(*trace, fmt.Sprintf("G%d>%d:%d", f.self, a.to, a.amt))
			}
		case "send", "mcall":
			*reqs = append(*reqs, c02Req{f.self, a})
		case "call":
			old := map[int]int64{}
			for k, v := range w.bal {
				old[k] = v
			}
			nt, nr := len(*trace), len(*reqs)
			if ok = w.frame(a.sub, trace, reqs); !ok {
				w.bal = old
				*trace, *reqs = (*trace)[:nt], (*reqs)[:nr]
			}
		}
		if !ok && !a.catch {
			return false
		}
	}
	return f.end == "ok"
}

// exec runs an execution with its messages.
func (w *c02) exec(f *cframe, trace *[]string) bool {
	var reqs []c02Req
	if !w.frame(f, trace, &reqs) {
		return false
	}
	for _, q := range reqs {
		switch q.a.kind {
		case "send":
			if w.bal[q.self] < q.a.amt {
				return false
			}
			w.bal[q.self] -= q.a.amt
			*trace = append(*trace, fmt.Sprintf("S%d:%d", q.a.id, q.a.amt))
		case "mcall":
			if !w.exec(q.a.sub, trace) {
				return false
			}
		}
		w.stats[q.a.kind]++
	}
	return true
}

func monC02(r *R) {
	r.Rule = "distinct = shapes of executions asking for messages (frames, endings, requests and nested executions) and their outcomes"
	transferTopic := common.HexToHash("0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef")
	r.ParCase("chain", r.N(48, 1500), func(id string, rng *rand.Rand) {
		c := verifkit.NewChain(verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 1+rng.Intn(90000)), NAcc: 3})
		w := &c02{c: c, rng: rng, bal: map[int]int64{}, stats: map[string]int{}}
		byAddr := map[common.Address]int{}
		for i := 0; i < 3; i++ {
			p := deployEth(c, c.Accs[0], verifkit.Deployer(puppetCode()))
			byAddr[p] = i
			w.ps = append(w.ps, p)
		}
		// the last one owns nothing at first
		fund := func(i int, n int64) {
			res := c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(c.Accs[1].Acc, w.ps[i].Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", n)))}, Signers: []*verifkit.Account{c.Accs[1]}, Gas: 1_000_000}))
			if res == nil || res.TxResults[0].Code != 0 {
				panic(harnessPanic{"funding"})
			}
			w.bal[i] += n
		}
		fund(0, 500)
		fund(1, 100)
		var block0 map[string]map[string]bool
		_ = block0
		a := c.Accs[2]
		c.Block()
		d0 := c.Dump()
		c.Block()
		volatile := map[string]bool{}
		for _, e := range verifkit.Diff(d0, c.Dump()) {
			volatile[e.Store+"/"+e.Key] = true
		}
		for b := 0; b < r.N(14, 30); b++ {
			w.n, w.inv = 0, 0
			root := w.gen(rng.Intn(3), 0)
			if w.bal[0]+w.bal[1]+w.bal[2] < 200 {
				fund(0, 300)
			}
			data := w.compile(root)
			var bz []byte
			how := []string{"eth", "msg", "ctor", "two"}[rng.Intn(4)]
			var trace []string
			old := map[int]int64{}
			for k, v := range w.bal {
				old[k] = v
			}
			gas := uint64(60_000_000)
			want := true
			mk := func() sdk.Msg {
				return &evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: w.ps[root.self].Hex(), Input: hexBytes(data), Value: math.ZeroInt()}
			}
			cos := func(ms ...sdk.Msg) []byte {
				return c.Cosmos(verifkit.CosmosTx{Msgs: ms, Signers: []*verifkit.Account{a}, Gas: gas})
			}
			shape := root.shape()
			switch how {
			case "eth":
				bz = c.Eth(a, verifkit.EthTx{Type: 2, Nonce: c.Seq(a.Acc), To: &w.ps[root.self], Data: data, Gas: gas})
				want = w.exec(root, &trace)
			case "msg":
				bz = cos(mk())
				want = w.exec(root, &trace)
			case "two": // two executions in a transaction
				w.n = 0
				other := w.gen(rng.Intn(3), 1)
				other.end = "ok"
				m1 := mk()
				root2 := root
				root, data = other, w.compile(other)
				m2 := mk()
				bz = cos(m1, m2)
				shape += "+" + other.shape()
				want = w.exec(root2, &trace) && w.exec(other, &trace)
			case "ctor": // asked for by a constructor, which owns nothing
				code := verifkit.NewAsm()
				code.MstoreBytes(0, data)
				code.Call(vm.CALL, w.ps[root.self], 0, 0, len(data), nil).Op(vm.ISZERO).PushLabel("fail").Op(vm.JUMPI)
				code.ReturnMem(0, 0).Label("fail").RevertMem(0, 0)
				if len(code.Bytes()) > 49152 {
					continue
				}
				bz = c.Eth(a, verifkit.EthTx{Type: 2, Nonce: c.Seq(a.Acc), Data: code.Bytes(), Gas: gas})
				want = w.exec(root, &trace)
			}
			pre := c.Dump()
			seq := c.Seq(a.Acc)
			res := c.Block(bz)
			if res == nil {
				r.Violate(id, "halt", "%v", c.HaltErr)
				return
			}
			t := res.TxResults[0]
			r.Eval(1)
			r.Distinct(fmt.Sprintf("%s|%v|%s", how, want, shape))
			r.Count(fmt.Sprintf("executions_%v", want), 1)
			r.Sample("%s %s %s: %v %v", id, how, shape, want, trace)
			if (t.Code == 0) != want {
				r.Violate(id, "outcome", "%s %s: code %d %s, expected success %v, trace %v", how, shape, t.Code, t.Log, want, trace)
				return
			}
			if !want {
				w.bal = old
				for _, e := range verifkit.Diff(pre, c.Dump()) {
					if volatile[e.Store+"/"+e.Key] || e.Store == "acc" && strings.Contains(e.Key, string(a.Acc)) || e.Store == "ibc" || e.Store == "opchild" {
						continue
					}
					if e.Store == "evm" && e.Key[0] == 0x71 {
						continue // block hashes
					}
					r.Violate(id, "trace-of-failure", "%s %s failed (%s) and left %s", how, shape, t.Log, e)
				}
				if c.Seq(a.Acc) != seq+1 {
					r.Violate(id, "sequence", "%s %s failed and took %d sequence numbers", how, shape, c.Seq(a.Acc)-seq)
				}
				continue
			}
			// what happened, in order
			var got []string
			for _, e := range t.Events {
				at := map[string]string{}
				for _, x := range e.Attributes {
					at[x.Key] = x.Value
				}
				switch e.Type {
				case evmtypes.EventTypeEVM:
					for _, x := range e.Attributes {
						if x.Key != evmtypes.AttributeKeyLog {
							continue
						}
						var l evmtypes.Log
						must(json.Unmarshal([]byte(x.Value), &l))
						if _, ok := byAddr[common.HexToAddress(l.Address)]; ok {
							got = append(got, fmt.Sprintf("L%d", common.HexToHash(l.Topics[0]).Big().Int64()))
						} else if common.HexToAddress(l.Address) == c.Contract("uusdc") && common.HexToHash(l.Topics[0]) == transferTopic {
							from, to := byAddr[common.HexToAddress(l.Topics[1])], byAddr[common.HexToAddress(l.Topics[2])]
							got = append(got, fmt.Sprintf("G%d>%d:%d", from, to, new(big.Int).SetBytes(common.FromHex(l.Data)).Int64()))
						}
					}
				case banktypes.EventTypeTransfer:
					acc, err := sdk.AccAddressFromBech32(at[banktypes.AttributeKeyRecipient])
					if err != nil {
						continue
					}
					var n int
					if _, err := fmt.Sscanf(string(acc), "rcpt-c02-%04d", &n); err == nil {
						got = append(got, fmt.Sprintf("S%d:%s", n, strings.TrimSuffix(at[sdk.AttributeKeyAmount], "uusdc")))
					}
				}
			}
			// transfers by messages are made through the token contract
			var clean []string
			for i := 0; i < len(got); i++ {
				if got[i][0] == 'G' && i+1 < len(got) && got[i+1][0] == 'S' && strings.Split(got[i], ":")[1] == strings.Split(got[i+1], ":")[1] && !in(trace, got[i], clean) {
					continue
				}
				clean = append(clean, got[i])
			}
			if x, y := strings.Join(clean, " "), strings.Join(trace, " "); x != y {
				r.Violate(id, "order", "%s %s\nhappened %s\nexpected %s", how, shape, x, y)
				return
			}
			for i, p := range w.ps {
				if b := c.Bal(p.Bytes(), "uusdc").Int64(); b != w.bal[i] {
					r.Violate(id, "balance", "%s %s: puppet %d has %d, want %d", how, shape, i, b, w.bal[i])
					return
				}
			}
			r.Count("steps_in_order", len(clean))
		}
		for k, v := range w.stats {
			r.Count("messages_"+k, v)
		}
	})
}

// in tells whether the next expected step after done is s.
func in(trace []string, s string, done []string) bool {
	return len(done) < len(trace) && trace[len(done)] == s
}

func (f *cframe) shape() string {
	var sb strings.Builder
	for _, a := range f.acts {
		sb.WriteString(a.kind[:1])
		if a.catch && (a.kind == "call" || a.kind == "give") {
			sb.WriteString("?")
		}
		if a.sub != nil {
			sb.WriteString("(" + a.sub.shape() + ")")
		}
	}
	return sb.String() + f.end[:1]
}
