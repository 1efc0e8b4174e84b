package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["S01"] = monS01 }

// acctRec is what the chain says of an account.
type acctRec struct {
	typ  string
	num  uint64
	seq  uint64
	pub  []byte
	addr sdk.AccAddress
	code string
	orig string
	name string
}

func (a *acctRec) empty() bool { return a.typ == "base" && a.pub == nil && a.seq == 0 }

func (a *acctRec) String() string {
	return fmt.Sprintf("%s %s num %d seq %d pub %x code %s orig %s %s", a.addr, a.typ, a.num, a.seq, a.pub, a.code, a.orig, a.name)
}

func readAccounts(c *verifkit.Chain, ctx sdk.Context) map[string]*acctRec {
	out := map[string]*acctRec{}
	c.App.AccountKeeper.IterateAccounts(ctx, func(a sdk.AccountI) bool {
		m := &acctRec{num: a.GetAccountNumber(), seq: a.GetSequence(), addr: a.GetAddress()}
		if p := a.GetPubKey(); p != nil {
			m.pub = p.Bytes()
		}
		switch x := a.(type) {
		case *authtypes.BaseAccount:
			m.typ = "base"
		case *authtypes.ModuleAccount:
			m.typ, m.name = "module", x.Name+fmt.Sprint(x.Permissions)
		case *evmtypes.ContractAccount:
			m.typ, m.code = "contract", hex.EncodeToString(x.CodeHash)
		case *evmtypes.ShorthandAccount:
			m.typ, m.orig = "shorthand", x.OriginalAddress
		default:
			m.typ = fmt.Sprintf("%T", a)
		}
		out[string(a.GetAddress())] = m
		return false
	})
	return out
}

// acctBook remembers every account and number it has seen.
type acctBook struct {
	c     *verifkit.Chain
	seen  map[string]*acctRec
	owner map[uint64]string
}

func newAcctBook(c *verifkit.Chain) *acctBook {
	return &acctBook{c: c, seen: map[string]*acctRec{}, owner: map[uint64]string{}}
}

// look judges the accounts of ctx against all that was seen before.
func (b *acctBook) look(ctx sdk.Context, bad func(sig, f string, a ...any)) int {
	now := readAccounts(b.c, ctx)
	keys := make([]string, 0, len(now))
	for k := range now {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	nums := map[uint64]string{}
	origs := map[string]string{}
	for _, k := range keys {
		a := now[k]
		if o, ok := nums[a.num]; ok {
			bad("number-shared", "accounts %s and %s both have number %d", now[o], a, a.num)
		}
		nums[a.num] = k
		if o, ok := b.owner[a.num]; ok && o != k {
			bad("number-reused", "%s has the number that %X had", a, o)
		}
		b.owner[a.num] = k
		// what the account numbers lead to
		if ad, err := b.c.App.AccountKeeper.Accounts.Indexes.Number.MatchExact(ctx, a.num); err != nil || !bytes.Equal(ad, []byte(k)) {
			bad("number-index", "number %d of %s leads to %X (%v)", a.num, a, ad, err)
		}
		if string(a.addr) != k {
			bad("address", "account stored under %X says its address is %X", k, a.addr)
		}
		if a.typ != "base" && a.pub != nil {
			bad("key", "%s has a key", a)
		}
		if a.orig != "" {
			long, err := sdk.AccAddressFromBech32(a.orig)
			if err != nil || len(long) != 32 || len(k) != 20 || string(long[12:]) != k {
				bad("shorthand", "%s does not stand for its original address", a)
			}
			if o, ok := origs[a.orig]; ok {
				bad("shorthand-shared", "%s and %s stand for the same address", now[o], a)
			}
			origs[a.orig] = k
		}
		p := b.seen[k]
		if p == nil {
			continue
		}
		if p.num != a.num {
			bad("number-changed", "%s was %s", a, p)
		}
		if p.seq > a.seq {
			bad("sequence-back", "%s was %s", a, p)
		}
		if p.pub != nil && !bytes.Equal(p.pub, a.pub) {
			bad("key-changed", "%s was %s", a, p)
		}
		if p.typ != a.typ && !(p.empty() && (a.typ == "contract" || a.typ == "shorthand")) {
			bad("kind-changed", "%s was %s", a, p)
		}
		if p.typ == a.typ && (p.code != a.code || p.orig != a.orig || p.name != a.name) {
			bad("identity-changed", "%s was %s", a, p)
		}
	}
	for k, p := range b.seen {
		if now[k] == nil && !p.empty() {
			bad("account-gone", "%s is no more", p)
		}
	}
	b.seen = now
	return len(now)
}

func monS01(r *R) {
	r.Rule = histRule + "; distinct = also kinds of account before, operation and outcome in operation sequences on colliding addresses"
	r.hists("hist", 16, 600, &watch{
		blocks: 8,
		start: func(x *hrun) {
			b := newAcctBook(x.c)
			x.state["book"] = b
			b.look(x.c.QCtx(), x.bad)
		},
		before: func(x *hrun, txs []*TxMeta) []*TxMeta { return append(txs, x.acctTxs()...) },
		block: func(x *hrun, txs []*TxMeta) {
			n := x.state["book"].(*acctBook).look(x.c.QCtx(), x.bad)
			x.r.Eval(n)
			x.r.Count("accounts_seen", n)
		},
	})
	r.ParCase("collide", r.N(60, 3000), func(id string, rng *rand.Rand) { s01Collide(r, id, rng) })
	r.ParCase("keyed", r.N(8, 100), func(id string, rng *rand.Rand) { s01Keyed(r, id, rng) })
	r.ParCase("place", r.N(8, 100), func(id string, rng *rand.Rand) { s01Place(r, id, rng) })
}

// acctTxs are transactions that touch addresses of accounts to come.
func (x *hrun) acctTxs() []*TxMeta {
	var out []*TxMeta
	for i := 0; i < 2; i++ {
		u := x.eoa()
		if u == nil {
			return out
		}
		p := createAddr(u.Eth, x.seq(u)+uint64(1+x.rng.Intn(3)))
		switch x.rng.Intn(3) {
		case 0:
			out = append(out, x.bankSend(u, p.Bytes(), sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 3))))
		case 1:
			m := x.ethTx(u, nil, verifkit.Deployer([]byte{0x60, byte(x.rng.Intn(256)), 0x00}), nil, 2_000_000, "deploy", func(l *Ledger) bool { return true })
			out = append(out, m)
		case 2:
			al, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, u.Acc, p.Bytes())
			must(err)
			out = append(out, x.cosmosTx(u, []sdk.Msg{al}, 1_000_000, "grant-to", func(l *Ledger) bool { return true }))
		}
	}
	return out
}

// kindOf an address for the model: none, empty, used, contract, module, shorthand
func kindOf(m map[string]*acctRec, a []byte) string {
	r := m[string(a)]
	switch {
	case r == nil:
		return "none"
	case r.empty():
		return "empty"
	case r.typ == "base":
		return "used"
	}
	return r.typ
}

// s01Collide: operations on 32-byte addresses that share their last 20 bytes with other accounts
// and with contracts to come.
func s01Collide(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	book := newAcctBook(c)
	bad := func(sig, f string, a ...any) { r.Violate(id, sig, f, a...) }
	book.look(ctx, bad)
	k := c.App.EVMKeeper
	msgs := evmkeeper.NewMsgServerImpl(k)
	payer := c.Accs[0]

	// deployers and the 20-byte addresses the play is about
	var deployers []common.Address
	for i := 0; i < 2; i++ {
		deployers = append(deployers, common.BytesToAddress(crypto20(id+"/deployer", i)))
	}
	pup, err := puppetIn(c, ctx, deployers[0])
	must(err)
	must(c.App.BankKeeper.SendCoins(ctx, payer.Acc, pup.Bytes(), sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 1000))))
	initCode := verifkit.Deployer([]byte{0x60, 0x01, 0x00})
	var pool []common.Address
	what := map[common.Address]func() error{}
	for i := 0; i < 2; i++ {
		pool = append(pool, common.BytesToAddress(crypto20(id+"/plain", i)))
	}
	for i := 0; i < 2; i++ {
		salt := i
		a := create2Addr(pup, salt, initCode)
		pool = append(pool, a)
		what[a] = func() error {
			return attempt(ctx, func(ctx sdk.Context) error {
				if codeAt(c, ctx, a) > 0 {
					return fmt.Errorf("there is one")
				}
				_, _, err := k.EVMCall(limited(ctx, 3_000_000), payer.Eth, pup, script(rec(pCreate2, salt, nil, initCode)), nil, nil)
				if err == nil && codeAt(c, ctx, a) == 0 {
					err = fmt.Errorf("no contract")
				}
				return err
			})
		}
	}
	from := deployers[1]
	next := createAddr(from, 0)
	pool = append(pool, next)
	what[next] = func() error {
		return attempt(ctx, func(ctx sdk.Context) error {
			_, ad, _, err := k.EVMCreate(limited(ctx, 3_000_000), from, initCode, nil, nil)
			if err == nil && ad != next {
				err = fmt.Errorf("created at %s", ad)
			}
			return err
		})
	}
	pool = append(pool, common.BytesToAddress(authtypes.NewModuleAddress(authtypes.FeeCollectorName)), c.Accs[2].Eth, pup)
	long := func(a common.Address, n int) sdk.AccAddress {
		b := append(make([]byte, 12), a.Bytes()...)
		b[0], b[11] = byte(n+1), 7
		return b
	}
	one := sdk.NewCoins(verifkit.Coin("uusdc", 5))
	bal := func(a common.Address) *big.Int {
		ad, err := evmtypes.DenomToContractAddr(ctx, k, "uusdc")
		must(err)
		return viewInt(ctx, c, ad, "balanceOf", a)
	}
	done := map[common.Address]bool{} // deployer nonce used up
	for i := 0; i < 30; i++ {
		a := pool[rng.Intn(len(pool))]
		l := long(a, rng.Intn(2))
		accs := readAccounts(c, ctx)
		kind := kindOf(accs, a.Bytes())
		mine := kind == "shorthand" && accs[string(a.Bytes())].orig == l.String()
		open := kind == "none" || kind == "empty"
		var op string
		var err error
		var want bool
		before := bal(a)
		blocked := c.App.BankKeeper.BlockedAddr(a.Bytes())
		switch rng.Intn(8) {
		case 0:
			op, want = "pay", true
			err = attempt(ctx, func(ctx sdk.Context) error { return c.App.BankKeeper.SendCoins(ctx, payer.Acc, a.Bytes(), one) })
		case 1:
			op, want = "pay-long", open || mine
			err = attempt(ctx, func(ctx sdk.Context) error { return c.App.BankKeeper.SendCoins(ctx, payer.Acc, l, one) })
		case 2:
			op, want = "spend-long", (open || mine) && before.Cmp(big.NewInt(5)) >= 0
			err = attempt(ctx, func(ctx sdk.Context) error { return c.App.BankKeeper.SendCoins(ctx, l, payer.Acc, one) })
		case 3:
			op, want = "call-long", open || mine
			err = attempt(ctx, func(ctx sdk.Context) error {
				_, err := msgs.Call(limited(ctx, 1_000_000), &evmtypes.MsgCall{Sender: l.String(), ContractAddr: pup.Hex(), Input: "0x", Value: math.ZeroInt()})
				return err
			})
		case 4:
			if what[a] == nil {
				continue
			}
			op, want = "create", open && !done[a]
			err = what[a]()
			done[a] = done[a] || (a == next)
			if want && err == nil {
				r.Count("contracts_placed", 1)
			}
			if err != nil && a == next {
				done[a] = false
			}
		case 5:
			if kind != "empty" {
				continue
			}
			op, want = "use", true // as if its key had signed
			acc := c.App.AccountKeeper.GetAccount(ctx, a.Bytes())
			must(acc.SetSequence(1))
			c.App.AccountKeeper.SetAccount(ctx, acc)
		case 6:
			// a call with value inside the EVM
			op, want = "value", !blocked
			err = attempt(ctx, func(ctx sdk.Context) error {
				_, _, err := k.EVMCall(limited(ctx, 3_000_000), payer.Eth, pup, script(Rec{Op: pCall, A1: a.Big(), A2: big.NewInt(1)}), nil, nil)
				return err
			})
		case 7:
			op, want = "long-create", open || mine
			err = attempt(ctx, func(ctx sdk.Context) error {
				_, err := msgs.Create(limited(ctx, 3_000_000), &evmtypes.MsgCreate{Sender: l.String(), Code: hexBytes(initCode), Value: math.ZeroInt()})
				return err
			})
		}
		r.Eval(1)
		r.Distinct(fmt.Sprintf("%s|%s|mine=%v|%v", kind, op, mine, err == nil))
		r.Count("op_"+op+"_"+fmt.Sprint(err == nil), 1)
		if (err == nil) != want {
			bad("outcome-"+op, "step %d: %s at %s (%s, mine %v) gave %v, want success %v", i, op, a, kind, mine, err, want)
			return
		}
		after := bal(a)
		if err != nil && after.Cmp(before) != 0 && a != payer.Eth {
			bad("moved", "step %d: a refused %s moved coins of %s", i, op, a)
		}
		if op == "spend-long" && err == nil && new(big.Int).Add(after, big.NewInt(5)).Cmp(before) != 0 {
			bad("moved", "step %d: %s spent 5, balance went %s to %s", i, a, before, after)
		}
		if err == nil && (op == "call-long" || op == "spend-long" || op == "long-create") {
			now := readAccounts(c, ctx)[string(a.Bytes())]
			if now == nil || now.typ != "shorthand" || now.orig != l.String() {
				bad("not-shorthand", "step %d: after %s by %s the account of %s is %v", i, op, l, a, now)
			}
		}
		r.Eval(book.look(ctx, bad))
		if r.NViol() > 0 {
			return
		}
	}
}

// puppetIn deploys a puppet in a scratch context.
func puppetIn(c *verifkit.Chain, ctx sdk.Context, from common.Address) (common.Address, error) {
	_, a, _, err := c.App.EVMKeeper.EVMCreate(limited(ctx, 10_000_000), from, verifkit.Deployer(puppetCode()), nil, nil)
	return a, err
}

func codeAt(c *verifkit.Chain, ctx sdk.Context, a common.Address) int {
	_, evm, err := c.App.EVMKeeper.CreateEVM(unlimited(ctx), common.Address{}, nil)
	must(err)
	return evm.StateDB.GetCodeSize(a)
}

// special makes a genesis account of a kind at an address.
func special(kind string, a common.Address) authtypes.GenesisAccount {
	b := authtypes.NewBaseAccountWithAddress(a.Bytes())
	switch kind {
	case "contract":
		ca := evmtypes.NewContractAccountWithAddress(a.Bytes())
		ca.CodeHash = common.Hash{1}.Bytes()
		return ca
	case "contract-fresh":
		return evmtypes.NewContractAccountWithAddress(a.Bytes())
	case "shorthand":
		l := append(bytes.Repeat([]byte{9}, 12), a.Bytes()...)
		return &evmtypes.ShorthandAccount{BaseAccount: b, OriginalAddress: sdk.AccAddress(l).String()}
	case "used":
		must(b.SetSequence(3))
		return b
	}
	return b
}

func addAccounts(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState, accs []authtypes.GenesisAccount, coins sdk.Coins) {
	cdc := app.AppCodec()
	var ag authtypes.GenesisState
	cdc.MustUnmarshalJSON(gs[authtypes.ModuleName], &ag)
	old, err := authtypes.UnpackAccounts(ag.Accounts)
	must(err)
	all := append(old, accs...)
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(ag.Params, authtypes.GenesisAccounts(all)))
	var bg banktypes.GenesisState
	cdc.MustUnmarshalJSON(gs[banktypes.ModuleName], &bg)
	for _, a := range accs {
		bg.Balances = append(bg.Balances, banktypes.Balance{Address: a.GetAddress().String(), Coins: coins})
	}
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(&bg)
}

// s01Keyed: accounts of other kinds at addresses somebody has the key of: the key opens nothing.
func s01Keyed(r *R, id string, rng *rand.Rand) {
	kinds := []string{"contract", "contract-fresh", "shorthand", "base"}
	var keys []*verifkit.Account
	for i, k := range kinds {
		keys = append(keys, verifkit.NewAccount(fmt.Sprintf("%s/%s/%d", id, k, i)))
	}
	c := verifkit.NewChain(verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 1+rng.Intn(9000)), NAcc: 3, GasPrice: []string{"", "0.15"}[rng.Intn(2)],
		Genesis: func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState) {
			var accs []authtypes.GenesisAccount
			for i, k := range kinds {
				a := special(k, keys[i].Eth)
				must(a.SetAccountNumber(uint64(40 + i)))
				accs = append(accs, a)
			}
			addAccounts(app, gs, accs, verifkit.DefaultBalances())
		}})
	book := newAcctBook(c)
	bad := func(sig, f string, a ...any) { r.Violate(id, sig, f, a...) }
	book.look(c.QCtx(), bad)
	gp := gasPrice(c)
	for round := 0; round < 3; round++ {
		for i, k := range kinds {
			a := keys[i]
			var forms []string
			var txs [][]byte
			add := func(f string, bz []byte) { forms, txs = append(forms, f), append(txs, bz) }
			seq := c.Seq(a.Acc)
			for _, ty := range []uint8{0, 1, 2} {
				tx := c.SignEth(a, verifkit.EthTx{Type: ty, Nonce: seq, To: &c.Accs[0].Eth, Value: big.NewInt(1), Gas: 500_000, FeeCap: gp, TipCap: gp})
				_, bz, err := c.EthToCosmos(tx)
				must(err)
				add(fmt.Sprint("eth", ty), bz)
			}
			fee := anyFee(c, 1_000_000)
			send := banktypes.NewMsgSend(a.Acc, c.Accs[0].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))
			add("send", c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{send}, Signers: []*verifkit.Account{a}, Gas: 1_000_000, Fee: fee}))
			call := &evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: c.Accs[1].Eth.Hex(), Input: "0x", Value: math.ZeroInt()}
			add("call", c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{call}, Signers: []*verifkit.Account{a}, Gas: 1_000_000, Fee: fee}))
			create := &evmtypes.MsgCreate{Sender: a.Bech(), Code: "0x00", Value: math.ZeroInt()}
			add("create", c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{create}, Signers: []*verifkit.Account{a}, Gas: 1_000_000, Fee: fee}))
			// as one of two signers
			o := c.Accs[0]
			both := []sdk.Msg{banktypes.NewMsgSend(o.Acc, c.Accs[1].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1))), send}
			add("second", c.Cosmos(verifkit.CosmosTx{Msgs: both, Signers: []*verifkit.Account{o, a}, Gas: 2_000_000, Fee: anyFee(c, 2_000_000)}))
			n := rng.Intn(len(txs))
			seqBefore := c.Seq(a.Acc)
			b0 := c.Bal(a.Acc, "uusdc").String() + " " + c.Bal(a.Acc, verifkit.FeeDenom).String()
			if cr, err := c.Check(txs[n]); k != "base" && err == nil && cr.Code == 0 {
				bad("admitted", "a %s signed by the key of a %s account is admitted", forms[n], k)
			}
			res := c.Block(txs[n])
			if res == nil {
				bad("halt", "%v", c.HaltErr)
				return
			}
			r.Eval(1)
			ok := res.TxResults[0].Code == 0
			r.Distinct("keyed|" + k + "|" + forms[n] + fmt.Sprint(ok))
			r.Count(fmt.Sprintf("keyed_%s_%v", k, ok), 1)
			if k != "base" {
				b1 := c.Bal(a.Acc, "uusdc").String() + " " + c.Bal(a.Acc, verifkit.FeeDenom).String()
				if ok || c.Seq(a.Acc) != seqBefore || b0 != b1 {
					bad("key-opens", "a %s signed by the key of a %s account: code %d, sequence %d to %d, balances %s to %s", forms[n], k, res.TxResults[0].Code, seqBefore, c.Seq(a.Acc), b0, b1)
				}
			} else if !ok {
				bad("keyed-base", "a %s of a plain account fails: %s", forms[n], res.TxResults[0].Log)
			}
			r.Eval(book.look(c.QCtx(), bad))
		}
	}
}

// s01Place: accounts where a contract is about to be created.
func s01Place(r *R, id string, rng *rand.Rand) {
	kinds := []string{"contract", "contract-fresh", "shorthand", "base", "used", "none"}
	rng.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	u := verifkit.NewAccount("acc0")
	c := verifkit.NewChain(verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 1+rng.Intn(9000)), NAcc: 3,
		Genesis: func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState) {
			var accs []authtypes.GenesisAccount
			for i, k := range kinds {
				if k == "none" {
					continue
				}
				a := special(k, createAddr(u.Eth, uint64(i)))
				must(a.SetAccountNumber(uint64(60 + i)))
				accs = append(accs, a)
			}
			addAccounts(app, gs, accs, sdk.NewCoins(verifkit.Coin("uusdc", 17)))
		}})
	book := newAcctBook(c)
	bad := func(sig, f string, a ...any) { r.Violate(id, sig, f, a...) }
	book.look(c.QCtx(), bad)
	code := []byte{0x60, 0x02, 0x00}
	for i, k := range kinds {
		at := createAddr(u.Eth, uint64(i))
		if s := c.Seq(u.Acc); s != uint64(i) {
			bad("sequence", "the deployer's sequence is %d, want %d", s, i)
			return
		}
		var res0 uint32
		form := "eth"
		if rng.Intn(2) == 0 {
			tx := c.SignEth(u, verifkit.EthTx{Type: coretypes.DynamicFeeTxType, Nonce: uint64(i), Data: verifkit.Deployer(code), Gas: 2_000_000})
			_, bz, err := c.EthToCosmos(tx)
			must(err)
			res := c.Block(bz)
			res0 = res.TxResults[0].Code
		} else {
			form = "cosmos"
			res := c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{&evmtypes.MsgCreate{Sender: u.Bech(), Code: hexBytes(verifkit.Deployer(code)), Value: math.ZeroInt()}}, Signers: []*verifkit.Account{u}, Gas: 2_000_000}))
			res0 = res.TxResults[0].Code
		}
		want := k == "none" || k == "base"
		r.Eval(1)
		r.Distinct(fmt.Sprintf("place|%s|%s|%v", k, form, res0 == 0))
		r.Count(fmt.Sprintf("place_%s_%v", k, res0 == 0), 1)
		if (res0 == 0) != want {
			bad("place", "creating a contract (%s) where a %s account is gave code %d", form, k, res0)
		}
		if n := codeLen(c, at); (n == len(code)) != want || (n != 0 && !want) {
			bad("place-code", "after creating a contract where a %s account is, it has %d bytes of code", k, n)
		}
		if b := c.Bal(at.Bytes(), "uusdc"); k != "none" && !b.Equal(math.NewInt(17)) {
			bad("place-coins", "creating a contract where a %s account is left it with %s of its 17 coins", k, b)
		}
		r.Eval(book.look(c.QCtx(), bad))
	}
}
