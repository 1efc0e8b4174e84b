package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["P01"] = monP01 }

// listed is how somebody can be named in a list of addresses.
func listed(rng *rand.Rand, bz []byte) string {
	b := sdk.AccAddress(bz).String()
	if rng.Intn(5) == 0 {
		return strings.ToUpper(b)
	}
	return b
}

func listedContract(rng *rand.Rand, a common.Address) string {
	switch rng.Intn(4) {
	case 0:
		return strings.ToLower(a.Hex())
	case 1:
		return sdk.AccAddress(a.Bytes()).String()
	case 2:
		return strings.ToLower(a.Hex())[2:]
	}
	return a.Hex()
}

// near is an address next to a: the last bit, the first, one within, the order of the bytes, or the
// account whose address has the contract's at its end.
func near(rng *rand.Rand, a []byte) []byte {
	b := append([]byte{}, a...)
	switch rng.Intn(5) {
	case 0:
		b[len(b)-1] ^= 1
	case 1:
		b[0] ^= 0x80
	case 2:
		b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
	case 3:
		copy(b[len(b)/2:], make([]byte, len(b)))
	case 4:
		for i := range b {
			b[i] = a[len(a)-1-i]
		}
	}
	return b
}

func nearby(rng *rand.Rand, a common.Address) common.Address {
	return common.BytesToAddress(near(rng, a.Bytes()))
}

func monP01(r *R) {
	r.Rule = "distinct = (way of deployment or registration, lists in force, outcome), (parameter change, sender, outcome) and (behaviour of a fee token, outcome)"
	r.ParCase("policy", r.N(60, 3000), func(id string, rng *rand.Rand) { p01Policy(r, id, rng) })
	r.ParCase("fee", r.N(300, 20000), func(id string, rng *rand.Rand) { p01Fee(r, id, rng) })
}

// p01World is a chain with the policy the model believes in force.
type p01World struct {
	r     *R
	id    string
	rng   *rand.Rand
	c     *verifkit.Chain
	pol   evmtypes.Params
	pubs  [][]byte         // of pol
	toks  []common.Address // of pol
	cands [][]byte         // who may be listed
	pups  []common.Address // puppets: registrants and in-EVM deployers
	long  *verifkit.Account
	reg   map[string]bool
}

func p01Policy(r *R, id string, rng *rand.Rand) {
	c := verifkit.NewChain(verifkit.Config{ChainID: "verif-p01", NAcc: 5})
	w := &p01World{r: r, id: id, rng: rng, c: c, long: verifkit.NewLongAccount(id)}
	for i := 0; i < 4; i++ {
		w.pups = append(w.pups, deployEth(c, c.Accs[0], verifkit.Deployer(puppetCode())))
	}
	// the 32-byte account gets its coins and makes itself known to the EVM
	res := c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(c.Accs[0].Acc, w.long.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 100)))}, Signers: c.Accs[:1]}))
	if res.TxResults[0].Code != 0 {
		panic(harnessPanic{res.TxResults[0].Log})
	}
	for _, a := range c.Accs {
		w.cands = append(w.cands, a.Acc)
	}
	for _, p := range w.pups {
		w.cands = append(w.cands, p.Bytes())
	}
	w.cands = append(w.cands, w.long.Acc, common.BytesToAddress(w.long.Acc).Bytes())
	p, err := c.App.EVMKeeper.Params.Get(c.QCtx())
	must(err)
	w.pol = p
	w.reg, _ = registry(c, c.QCtx())

	for b := 0; b < 10; b++ {
		var txs [][]byte
		var post []func(code uint32, log string)
		used := map[*verifkit.Account]bool{}
		if rng.Intn(2) == 0 {
			a := c.Accs[rng.Intn(len(c.Accs))]
			used[a] = true
			tx, f := w.change(a)
			txs, post = append(txs, tx), append(post, f)
		}
		n := 1 + rng.Intn(4)
		for i := 0; i < n; i++ {
			a := c.Accs[rng.Intn(len(c.Accs))]
			if rng.Intn(8) == 0 {
				a = w.long
			}
			if used[a] {
				continue
			}
			used[a] = true
			tx, f := w.attempt(a)
			txs, post = append(txs, tx), append(post, f)
		}
		// in random order
		rng.Shuffle(len(txs), func(i, j int) { txs[i], txs[j] = txs[j], txs[i]; post[i], post[j] = post[j], post[i] })
		res := c.Block(txs...)
		if res == nil {
			r.Violate(id, "halt", "%v", c.HaltErr)
			return
		}
		for i, tr := range res.TxResults {
			post[i](tr.Code, tr.Log)
		}
		now, err := c.App.EVMKeeper.Params.Get(c.QCtx())
		must(err)
		r.Eval(1)
		if now.String() != w.pol.String() {
			r.Violate(id, "params", "block %d: parameters are %s, the accepted changes make %s", c.Height, now, w.pol)
			return
		}
		reg, _ := registry(c, c.QCtx())
		r.Eval(1)
		for k := range reg {
			if !w.reg[k] {
				r.Violate(id, "registered", "block %d: %s became a registered coin against the policy", c.Height, k)
			}
		}
		for k := range w.reg {
			if !reg[k] {
				r.Violate(id, "registered", "block %d: %s is not registered", c.Height, k)
			}
		}
		r.Count("blocks", 1)
	}
}

// change proposes other parameters.
func (w *p01World) change(a *verifkit.Account) ([]byte, func(uint32, string)) {
	rng, c := w.rng, w.c
	p := w.pol
	pubs, toks := w.pubs, w.toks
	if rng.Intn(2) == 0 {
		p.AllowedPublishers, pubs = nil, nil
		for i := rng.Intn(4); i > 0; i-- {
			a := w.cands[rng.Intn(len(w.cands))]
			if rng.Intn(3) == 0 {
				a = near(rng, a)
			}
			p.AllowedPublishers, pubs = append(p.AllowedPublishers, listed(rng, a)), append(pubs, a)
		}
	}
	if rng.Intn(2) == 0 {
		p.AllowedCustomERC20s, toks = nil, nil
		for i := rng.Intn(4); i > 0; i-- {
			a := w.pups[rng.Intn(len(w.pups))]
			if rng.Intn(3) == 0 { // another address which looks like it
				a = nearby(rng, a)
			}
			p.AllowedCustomERC20s, toks = append(p.AllowedCustomERC20s, listedContract(rng, a)), append(toks, a)
		}
	}
	if rng.Intn(3) == 0 {
		p.AllowCustomERC20 = rng.Intn(3) > 0
	}
	if rng.Intn(3) == 0 {
		p.NumRetainBlockHashes = []uint64{0, 256, 257, 1000, 1 << 63}[rng.Intn(5)]
	}
	if rng.Intn(3) == 0 {
		p.GasRefundRatio = []math.LegacyDec{math.LegacyZeroDec(), math.LegacyOneDec(), math.LegacyNewDecWithPrec(int64(rng.Intn(100)), 2)}[rng.Intn(3)]
	}
	// something invalid
	bad := ""
	if rng.Intn(5) == 0 {
		switch rng.Intn(9) {
		case 0:
			bad, p.AllowedPublishers = "publisher", append(append([]string{}, p.AllowedPublishers...), []string{"", "init1", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", "0x12"}[rng.Intn(4)])
		case 1:
			bad, p.AllowedCustomERC20s = "token", append(append([]string{}, p.AllowedCustomERC20s...), []string{"", "0x1234", "init1", "zz"}[rng.Intn(4)])
		case 2:
			bad, p.GasRefundRatio = "ratio", math.LegacyOneDec().Add(math.LegacySmallestDec())
		case 3:
			bad, p.GasRefundRatio = "ratio", math.LegacySmallestDec().Neg()
		case 4:
			bad, p.NumRetainBlockHashes = "retain", []uint64{1, 100, 255}[rng.Intn(3)]
		case 5:
			bad, p.FeeDenom = "fee", []string{"", "none", "evm/zz", "evm/" + strings.Repeat("0", 37) + "dad", "ibc/none"}[rng.Intn(5)]
		case 6: // a contract that is no token
			bad, p.FeeDenom = "fee", "evm/"+w.pups[rng.Intn(len(w.pups))].Hex()[2:]
		case 7: // an account
			bad, p.FeeDenom = "fee", "evm/"+c.Accs[0].Eth.Hex()[2:]
		case 8:
			bad, p.AllowedPublishers = "publisher", append([]string{strings.ToUpper(c.Accs[0].Bech()[:8]) + c.Accs[0].Bech()[8:]}, p.AllowedPublishers...)
		}
	}
	auth := authtypes.NewModuleAddress(opchildtypes.ModuleName).String()
	var tx []byte
	who := "authority"
	if rng.Intn(5) > 0 {
		tx = adminTx(c, &evmtypes.MsgUpdateParams{Authority: auth, Params: p})
	} else {
		// by somebody else
		name := a.Bech()
		switch rng.Intn(3) {
		case 0:
			who, name = "forged authority", auth
			m := &evmtypes.MsgUpdateParams{Authority: name, Params: p}
			tx = c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{a}, Gas: 3_000_000})
		case 1:
			who = "own name"
			m := &evmtypes.MsgUpdateParams{Authority: name, Params: p}
			tx = c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{a}, Gas: 3_000_000})
		case 2: // the admin, in the name of somebody else
			who, name = "other authority", []string{c.Val.Bech(), authtypes.NewModuleAddress(govtypes.ModuleName).String()}[rng.Intn(2)]
			tx = adminTx(c, &evmtypes.MsgUpdateParams{Authority: name, Params: p})
		}
		bad = who
	}
	return tx, func(code uint32, log string) {
		w.r.Eval(1)
		w.r.Count("changes", 1)
		w.r.Distinct(fmt.Sprintf("change|%s|%v|%d|%d|%v", bad, code == 0, len(pubs), len(toks), p.AllowCustomERC20))
		w.r.Sample("%s block %d: change of parameters (%s) gives %d %s", w.id, c.Height, bad, code, log)
		if (code == 0) != (bad == "") {
			w.r.Violate(w.id, "change-"+bad, "block %d: change of parameters to %s (wrong: %q, by %s) has code %d: %s", c.Height, p, bad, who, code, log)
		}
		if code == 0 {
			w.pol, w.pubs, w.toks = p, pubs, toks
		}
	}
}

func (w *p01World) mayPublish(acc []byte) bool {
	if len(w.pubs) == 0 {
		return true
	}
	for _, p := range w.pubs {
		if bytes.Equal(p, acc) {
			return true
		}
	}
	return false
}

func (w *p01World) mayRegister(a common.Address) bool {
	return w.pol.AllowCustomERC20 && (len(w.toks) == 0 || containsAddr(w.toks, a))
}

// attempt deploys something or registers a token.
func (w *p01World) attempt(a *verifkit.Account) ([]byte, func(uint32, string)) {
	rng, c := w.rng, w.c
	init := verifkit.Deployer([]byte{byte(rng.Intn(0xef)), 1, 2})
	salt := rng.Intn(1 << 30)
	seq := c.Seq(a.Acc)
	tag := func(kind string, allowed bool) string {
		return fmt.Sprintf("%s|%v|%d|%d|%v|long%v", kind, allowed, len(w.pubs), len(w.toks), w.pol.AllowCustomERC20, a == w.long)
	}
	deployed := func(kind string, by []byte, at common.Address) func(uint32, string) {
		return func(code uint32, log string) {
			allowed := w.mayPublish(by)
			w.r.Eval(1)
			w.r.Count("deployments", 1)
			w.r.Distinct(tag(kind, allowed))
			there := at != (common.Address{}) && codeLen(c, at) > 0
			w.r.Sample("%s block %d: %s by %x with publishers %v: code %d", w.id, c.Height, kind, by, w.pol.AllowedPublishers, code)
			if (code == 0) != allowed || (at != common.Address{}) && there != allowed {
				w.r.Violate(w.id, "deploy-"+kind, "block %d: %s by %x with publishers %v: code %d, contract at %s: %v: %s", c.Height, kind, by, w.pol.AllowedPublishers, code, at, there, log)
			}
		}
	}
	create := func(acc sdk.AccAddress) *evmtypes.MsgCreate {
		s := acc.String()
		if rng.Intn(6) == 0 { // other forms of the same address
			s = listed(rng, acc)
		}
		return &evmtypes.MsgCreate{Sender: s, Code: hexBytes(init), Value: math.ZeroInt()}
	}
	one := func(m ...sdk.Msg) []byte {
		return c.Cosmos(verifkit.CosmosTx{Msgs: m, Signers: []*verifkit.Account{a}, Gas: 20_000_000})
	}
	eth := func(to *common.Address, data []byte) []byte {
		return c.Eth(a, verifkit.EthTx{Type: []uint8{0, 1, 2}[rng.Intn(3)], Nonce: seq, To: to, Data: data, Gas: 20_000_000, FeeCap: gasPrice(c)})
	}
	at := createAddr(a.Eth, seq)
	if a == w.long {
		at = common.Address{} // its nonce in the EVM is its own affair
	}
	call := func(to common.Address, data []byte) []byte {
		if a == w.long || rng.Intn(2) == 0 {
			return one(&evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: to.Hex(), Input: hexBytes(data), Value: math.ZeroInt()})
		}
		return eth(&to, data)
	}
	kinds := []string{"create", "create2", "eth", "contract", "contract2", "authz", "in-evm", "register", "register", "register", "factory-forged"}
	kind := kinds[rng.Intn(len(kinds))]
	if a == w.long && kind == "eth" {
		kind = "create"
	}
	p := w.pups[rng.Intn(len(w.pups))]
	switch kind {
	case "create":
		return one(create(a.Acc)), deployed(kind, a.Acc, at)
	case "create2":
		m := &evmtypes.MsgCreate2{Sender: a.Bech(), Code: hexBytes(init), Salt: uint64(salt), Value: math.ZeroInt()}
		return one(m), deployed(kind, a.Acc, create2Addr(a.Eth, salt, init))
	case "eth":
		return eth(nil, init), deployed(kind, a.Acc, at)
	case "contract": // a contract asks for it
		js := fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCreate","sender":"%s","code":"%s","value":"0"}`, sdk.AccAddress(p.Bytes()), hexBytes(init))
		return call(p, script(rec(pCall, evmtypes.CosmosPrecompileAddress, 0, execData(js)))), deployed(kind, p.Bytes(), common.Address{})
	case "contract2":
		js := fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCreate2","sender":"%s","code":"%s","value":"0","salt":"%d"}`, sdk.AccAddress(p.Bytes()), hexBytes(init), salt)
		return call(p, script(rec(pCall, evmtypes.CosmosPrecompileAddress, 0, execData(js)))), deployed(kind, p.Bytes(), create2Addr(p, salt, init))
	case "authz": // the grantee of itself
		m := authz.NewMsgExec(a.Acc, []sdk.Msg{create(a.Acc)})
		return one(&m), deployed(kind, a.Acc, common.Address{})
	case "in-evm": // not a deployment by transaction
		return call(p, script(rec(pCreate, 0, 0, init))), func(code uint32, log string) {
			w.r.Eval(1)
			w.r.Distinct(tag(kind, true))
			if code != 0 {
				w.r.Violate(w.id, kind, "block %d: CREATE of contract %s fails with publishers %v: %s", c.Height, p, w.pol.AllowedPublishers, log)
			}
		}
	case "register":
		ops := map[int]string{pCall: "call", pDelegateMust: "delegatecall"}
		op := pCall
		if rng.Intn(3) == 0 {
			op = pDelegateMust
		}
		self := p
		data := script(rec(pCall, evmtypes.ERC20RegistryPrecompileAddress, 0, pack(registryABI, "register_erc20")))
		if op == pDelegateMust { // another contract's code in its name
			data = script(rec(pDelegateMust, w.pups[rng.Intn(len(w.pups))], 0, data))
		}
		return call(p, data), func(code uint32, log string) {
			allowed := w.mayRegister(self)
			k := self.Hex()
			w.r.Eval(1)
			w.r.Count("registrations", 1)
			w.r.Distinct(tag(kind+ops[op], allowed) + fmt.Sprint(w.reg[k]))
			w.r.Sample("%s block %d: registration of %s with %v %v: code %d", w.id, c.Height, self, w.pol.AllowCustomERC20, w.pol.AllowedCustomERC20s, code)
			if w.reg[k] { // already: what it answers does not matter
				return
			}
			if (code == 0) != allowed {
				w.r.Violate(w.id, "register", "block %d: registration of %s with AllowCustomERC20=%v list %v has code %d: %s", c.Height, self, w.pol.AllowCustomERC20, w.pol.AllowedCustomERC20s, code, log)
			}
			if allowed {
				w.reg[k] = true
			}
		}
	case "factory-forged": // only the factory vouches for tokens
		data := script(rec(pCall, evmtypes.ERC20RegistryPrecompileAddress, 0, pack(registryABI, "register_erc20_from_factory", p)))
		return call(p, data), func(code uint32, log string) {
			w.r.Eval(1)
			w.r.Distinct(tag(kind, false))
			if code == 0 {
				w.r.Violate(w.id, kind, "block %d: %s registers itself in the factory's name", c.Height, p)
			}
		}
	}
	panic(kind)
}

// p01Fee tries fee tokens of every behaviour.
func p01Fee(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	k := c.App.EVMKeeper
	auth := authtypes.NewModuleAddress(opchildtypes.ModuleName).String()
	srv := evmkeeper.NewMsgServerImpl(k)
	p, err := k.Params.Get(ctx)
	must(err)

	pick := func(l ...string) string { return l[rng.Intn(len(l))] }
	mint := pick("add", "add", "add", "add", "nothing", "revert", "invalid", "double", "other", "sub")
	burn := pick("sub", "sub", "sub", "sub", "nothing", "revert", "invalid", "double", "other", "add", "floor")
	bal := pick("read", "read", "read", "read", "read", "read", "revert", "constant", "short")
	dec := pick("18", "6", "0", "0", "18", "revert", "short")
	only := rng.Intn(3) == 0 // only for the chain
	ok := mint == "add" && (burn == "sub" || burn == "floor") && bal == "read" && dec != "revert" && dec != "short"
	what := strings.Join([]string{mint, burn, bal, dec, fmt.Sprint(only)}, " ")

	_, addr, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, verifkit.Deployer(feeTokenCode(mint, burn, bal, dec, only)), nil, nil)
	must(err)
	denom := "evm/" + addr.Hex()[2:]
	switch rng.Intn(8) {
	case 0:
		what, ok, denom = "native", true, pick("uusdc", "zeta", "ibc/ABCDEF", verifkit.FeeDenom)
	case 1:
		what, ok, denom = "none", false, pick("", "nope", "evm/0", "evm/"+common.BytesToAddress([]byte(id)).Hex()[2:])
	case 2: // the chain's own token for users to register: the chain can mint none
		what, ok = "initia", false
		_, addr, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, append(common.FromHex(initia_erc20.InitiaErc20Bin), mustPackCtor("n", "s", uint8(6))...), nil, nil)
		must(err)
		denom = "evm/" + addr.Hex()[2:]
	case 3:
		what, ok = "factory", true
		f, err := k.GetERC20FactoryAddr(ctx)
		must(err)
		ret, _, err := k.EVMCall(ctx, c.Accs[0].Eth, f, pack(factoryABI, "createERC20", "n", "s", uint8(rng.Intn(19))), nil, nil)
		must(err)
		denom = "evm/" + common.BytesToAddress(ret).Hex()[2:]
	}
	was := c.DumpCtx(ctx)
	q := p
	q.FeeDenom = denom
	var uerr error
	outer := attempt(ctx, func(ctx sdk.Context) error {
		_, uerr = srv.UpdateParams(ctx, &evmtypes.MsgUpdateParams{Authority: auth, Params: q})
		if uerr != nil {
			// refused: nothing may have changed even before the caller rolls back
			if d := verifkit.Diff(was, c.DumpCtx(ctx)); len(d) > 0 {
				r.Violate(id, "fee-leftovers", "refused fee token (%s) left %s", what, verifkit.DiffString(d, 5))
			}
			return uerr
		}
		// only the parameters changed
		for _, e := range verifkit.Diff(was, c.DumpCtx(ctx)) {
			if !strings.Contains(e.String(), "evm") || bytes.HasPrefix([]byte(e.Key), evmtypes.VMStorePrefix) {
				r.Violate(id, "fee-leftovers", "accepted fee token (%s) left %s", what, e)
			}
		}
		return nil
	})
	_ = outer
	r.Eval(1)
	r.Count("fee_tokens", 1)
	r.Distinct("fee|" + what + fmt.Sprint(uerr == nil))
	r.Sample("%s: fee token %s (%s): %v", id, denom, what, uerr)
	if (uerr == nil) != ok {
		r.Violate(id, "fee", "fee token %s (mint, burn, balance, decimals, sender checked: %s): %v", denom, what, uerr)
	}
}

// feeTokenCode is a token of one holder's balance in slot 0 (whoever it is).
func feeTokenCode(mint, burn, bal, dec string, only bool) []byte {
	a := verifkit.NewAsm()
	a.Push(0).Op(vm.CALLDATALOAD).Push(224).Op(vm.SHR)
	for _, m := range []string{"sudoMint", "sudoBurn", "balanceOf", "decimals"} {
		a.Op(vm.DUP1).Push(erc20ABI.Methods[m].ID).Op(vm.EQ).PushLabel(m).Op(vm.JUMPI)
	}
	a.RevertMem(0, 0)
	for _, m := range []struct{ name, how string }{{"sudoMint", mint}, {"sudoBurn", burn}} {
		a.Label(m.name)
		if only {
			a.Op(vm.CALLER).Push(evmtypes.StdAddress).Op(vm.EQ, vm.ISZERO).PushLabel("no").Op(vm.JUMPI)
		}
		amount := func() { a.Push(36).Op(vm.CALLDATALOAD) }
		slot := func() { a.Push(4).Op(vm.CALLDATALOAD) }
		switch m.how {
		case "add":
			amount()
			slot()
			a.Op(vm.SLOAD, vm.ADD)
			slot()
			a.Op(vm.SSTORE, vm.STOP)
		case "double":
			amount()
			a.Op(vm.DUP1, vm.ADD)
			slot()
			if m.name == "sudoBurn" {
				a.Op(vm.SLOAD, vm.SUB)
			} else {
				a.Op(vm.SLOAD, vm.ADD)
			}
			slot()
			a.Op(vm.SSTORE, vm.STOP)
		case "sub", "floor":
			amount()
			slot()
			a.Op(vm.SLOAD, vm.SUB)
			slot()
			a.Op(vm.SSTORE, vm.STOP)
		case "other": // of somebody else
			amount()
			a.Push(77).Op(vm.SSTORE, vm.STOP)
		case "nothing":
			a.Op(vm.STOP)
		case "revert":
			a.RevertMem(0, 0)
		case "invalid":
			a.Op(vm.INVALID)
		}
	}
	a.Label("balanceOf")
	switch bal {
	case "read":
		a.Push(4).Op(vm.CALLDATALOAD, vm.SLOAD).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	case "revert":
		a.RevertMem(0, 0)
	case "constant":
		a.Push(5).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	case "short":
		a.ReturnMem(0, 7)
	}
	a.Label("decimals")
	switch dec {
	case "revert":
		a.RevertMem(0, 0)
	case "short":
		a.ReturnMem(0, 7)
	default:
		n := map[string]int{"18": 18, "6": 6, "0": 0}[dec]
		a.Push(n).Push(0).Op(vm.MSTORE).ReturnMem(0, 32)
	}
	a.Label("no").RevertMem(0, 0)
	return a.Bytes()
}
