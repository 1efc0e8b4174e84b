package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/bank/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	monitors["B03"] = monB03
	monitors["B04"] = monB04
	monitors["B05"] = monB05
	monitors["B07"] = monB07
}

// clone of the ledger to predict operations on a scratch state
func (l *Ledger) clone() *Ledger {
	n := *l
	s := l.Snap()
	n.bal, n.sup, n.allow, n.owner = s.bal, s.sup, s.allow, s.owner
	n.addrs = map[common.Address]bool{}
	for a := range l.addrs {
		n.addrs[a] = true
	}
	return &n
}

// compareLedger compares balances of some denominations on a state with a ledger.
func (x *hrun) compareLedger(ctx sdk.Context, l *Ledger, what string, ds map[string]bool) {
	var list []string
	for d := range ds {
		list = append(list, d)
	}
	sort.Strings(list)
	for _, d := range list {
		ta := x.tokenAddr(d)
		x.r.Eval(1)
		if s := viewInt(ctx, x.c, ta, "totalSupply"); s.Cmp(l.Sup(d)) != 0 {
			x.bad("supply", "%s: supply of %s is %s, want %s", what, d, s, l.Sup(d))
		}
		for _, a := range l.holders() {
			x.r.Eval(1)
			if b := viewInt(ctx, x.c, ta, "balanceOf", a); b.Cmp(l.Bal(d, a)) != 0 {
				x.bad("balance", "%s: %s (%s) has %s%s, want %s", what, a, x.nameOf(a), b, d, l.Bal(d, a))
			}
		}
	}
}

// attempt runs f on a branch of ctx, keeping its writes only on success.
func attempt(ctx sdk.Context, f func(ctx sdk.Context) error) (err error) {
	cc, write := ctx.CacheContext()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err = f(cc); err == nil {
		write()
	}
	return err
}

func monB03(r *R) {
	r.Rule = histRule + "; scratch transfers differing in function, number of coins and outcome"
	r.hists("hist", 24, 700, &watch{
		blocks: 8,
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, nil)
			x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
			for _, m := range txs {
				x.transferEvents(m)
			}
			x.moduleSends()
		},
	})
	r.ParCase("enabled", r.N(16, 600), func(id string, rng *rand.Rand) { b03Enabled(r, id, rng) })
}

// b03Enabled changes what may be sent, rightly and wrongly, and tries to send.
func b03Enabled(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	bad := func(sig, f string, a ...any) { r.Violate(id, sig, f, a...) }
	run := func(m sdk.Msg) error {
		return attempt(ctx, func(ctx sdk.Context) error {
			_, err := c.App.MsgServiceRouter().Handler(m)(ctx, m)
			return err
		})
	}
	denoms := []string{verifkit.FeeDenom, "uusdc", "zeta", "ibc/ABCDEF"}
	set, dflt := map[string]bool{}, true
	for _, e := range c.App.BankKeeper.GetAllSendEnabledEntries(ctx) {
		set[e.Denom] = e.Enabled
	}
	dflt = c.App.BankKeeper.GetParams(ctx).DefaultSendEnabled
	may := func(d string) bool {
		if on, ok := set[d]; ok {
			return on
		}
		return dflt
	}
	strangers := []string{c.Accs[0].Bech(), c.Val.Bech(), authtypes.NewModuleAddress("gov").String(), authtypes.NewModuleAddress("bank").String(), "", c.Accs[0].Eth.Hex()}
	for i := 0; i < 14; i++ {
		auth, entitled := authorityAddr(), true
		if rng.Intn(3) == 0 {
			auth, entitled = strangers[rng.Intn(len(strangers))], false
		}
		var msg sdk.Msg
		then := func() {}
		kind, valid := "params", true
		if rng.Intn(4) == 0 {
			on := rng.Intn(2) == 0
			msg = &banktypes.MsgUpdateParams{Authority: auth, Params: banktypes.Params{DefaultSendEnabled: on}}
			then = func() { dflt = on }
		} else {
			kind = "set"
			m := &banktypes.MsgSetSendEnabled{Authority: auth}
			mode := rng.Intn(3) // some, defaults, both
			perm := rng.Perm(len(denoms))
			if mode != 1 {
				for _, j := range perm[:1+rng.Intn(len(denoms))] {
					m.SendEnabled = append(m.SendEnabled, &banktypes.SendEnabled{Denom: denoms[j], Enabled: rng.Intn(2) == 0})
				}
			}
			if mode != 0 {
				for _, j := range rng.Perm(len(denoms))[:1+rng.Intn(len(denoms))] {
					m.UseDefaultFor = append(m.UseDefaultFor, denoms[j])
				}
			}
			switch rng.Intn(8) {
			case 0:
				m.UseDefaultFor, valid = append(m.UseDefaultFor, "1x"), false
			case 1:
				m.SendEnabled, valid = append(m.SendEnabled, &banktypes.SendEnabled{Denom: "1x"}), false
			case 2:
				if len(m.SendEnabled) > 0 {
					m.SendEnabled, valid = append(m.SendEnabled, &banktypes.SendEnabled{Denom: m.SendEnabled[0].Denom, Enabled: rng.Intn(2) == 0}), false
				}
			}
			kind += fmt.Sprint(mode)
			msg = m
			then = func() {
				for _, e := range m.SendEnabled {
					set[e.Denom] = e.Enabled
				}
				for _, d := range m.UseDefaultFor {
					delete(set, d)
				}
			}
		}
		err := run(msg)
		r.Eval(1)
		r.Count("send_enabled_changes", 1)
		r.Distinct(fmt.Sprintf("enabled|%s|%v|%v", kind, entitled, valid))
		if ok := entitled && valid; ok != (err == nil) {
			bad("enabled-change", "%v by %s (valid %v): %v", msg, auth, valid, err)
		} else if ok {
			then()
		}
		for k := 0; k < 4; k++ {
			amount, all := sdk.NewCoins(), true
			for _, j := range rng.Perm(len(denoms))[:1+rng.Intn(3)] {
				amount = amount.Add(verifkit.Coin(denoms[j], 1))
				all = all && may(denoms[j])
			}
			err := run(banktypes.NewMsgSend(c.Accs[0].Acc, c.Accs[1].Acc, amount))
			r.Eval(1)
			r.Count(fmt.Sprintf("enabled_sends_%v", all), 1)
			if (err == nil) != all {
				bad("enabled-send", "sending %s (sendable by the changes made: %v) after %v: %v", amount, all, msg, err)
			}
		}
	}
}

// transferEvents: a successful plain bank send is announced exactly.
func (x *hrun) transferEvents(m *TxMeta) {
	if m.Kind != "bank-send" || m.Res.Code != 0 {
		return
	}
	s := m.Msgs[0].(*banktypes.MsgSend)
	n := 0
	for _, e := range m.Res.Events {
		if e.Type != "transfer" {
			continue
		}
		at := map[string]string{}
		for _, a := range e.Attributes {
			at[a.Key] = a.Value
		}
		if _, ok := at["msg_index"]; !ok {
			continue // the fee
		}
		n++
		if at["recipient"] != s.ToAddress || at["sender"] != s.FromAddress || at["amount"] != s.Amount.String() {
			x.bad("transfer-event", "event %v of %v", at, s)
		}
	}
	x.r.Eval(1)
	if n != 1 {
		x.bad("transfer-event", "%d transfer events of one send", n)
	}
}

// moduleSends drives every transfer function of the bank on a scratch state.
func (x *hrun) moduleSends() {
	ctx := x.c.Scratch(0)
	l := x.L.clone()
	bk := x.c.App.BankKeeper
	ms := keeper.NewMsgServerImpl(*bk)
	ds := map[string]bool{}
	for i := 0; i < 10; i++ {
		from, to := x.pickTo(), x.pickTo()
		if x.rng.Intn(4) == 0 {
			from = collectorAddr
		}
		if x.rng.Intn(8) == 0 {
			to = from
		}
		coins := x.someCoins(from)
		names := moduleNames[x.rng.Intn(len(moduleNames))]
		mod := common.BytesToAddress(authtypes.NewModuleAddress(names))
		var what string
		var want bool
		var err error
		move := func(a, b common.Address) bool {
			s := l.Snap()
			for _, c := range coins {
				if !l.move(c.Denom, a, b, c.Amount.BigInt()) {
					l.Restore(s)
					return false
				}
			}
			return true
		}
		// module accounts that do not exist yet come into being; x.L.module is about burning through contracts only
		switch x.rng.Intn(6) {
		case 0:
			what = "SendCoins"
			want = move(from, to)
			err = attempt(ctx, func(c sdk.Context) error { return bk.SendCoins(c, x.cosmosOf(from), x.cosmosOf(to), coins) })
		case 1:
			what = "ModuleToAccount"
			if l.blocked[to] {
				want = false
			} else {
				want = move(mod, to)
			}
			err = attempt(ctx, func(c sdk.Context) error { return bk.SendCoinsFromModuleToAccount(c, names, x.cosmosOf(to), coins) })
		case 2:
			if a := x.c.App.AccountKeeper.GetAccount(ctx, authtypes.NewModuleAddress(names)); a != nil {
				if _, ok := a.(sdk.ModuleAccountI); !ok {
					return // a bridge deposit of nothing made it an ordinary account
				}
			}
			what = "AccountToModule"
			want = move(from, mod)
			err = attempt(ctx, func(c sdk.Context) error { return bk.SendCoinsFromAccountToModule(c, x.cosmosOf(from), names, coins) })
		case 3:
			what = "ModuleToModule"
			n2 := moduleNames[x.rng.Intn(len(moduleNames))]
			want = move(mod, common.BytesToAddress(authtypes.NewModuleAddress(n2)))
			err = attempt(ctx, func(c sdk.Context) error { return bk.SendCoinsFromModuleToModule(c, names, n2, coins) })
		case 4:
			what = "MsgSend"
			bad := coins
			switch x.rng.Intn(6) {
			case 0:
				bad = append(append(sdk.Coins{}, coins...), coins[0]) // a denomination twice
			case 1:
				bad = append(append(sdk.Coins{}, coins...), sdk.Coin{Denom: "zzz", Amount: math.ZeroInt()})
			case 2:
				bad = sdk.Coins{sdk.Coin{Denom: coins[0].Denom, Amount: coins[0].Amount.Neg()}}
			case 3:
				if len(coins) > 1 {
					bad = sdk.Coins{coins[1], coins[0]}
				}
			}
			want = bad.IsValid() && bad.IsAllPositive() && len(bad) > 0
			if want {
				want = x.bankMove(l, from, x.cosmosOf(to), bad)
			}
			err = attempt(ctx, func(c sdk.Context) error {
				_, e := ms.Send(c, banktypes.NewMsgSend(x.cosmosOf(from), x.cosmosOf(to), bad))
				return e
			})
			coins = bad
		case 5:
			what = "ERC20"
			c0 := coins[0]
			want = l.tokenCall(c0.Denom, "transfer", from, []any{to, c0.Amount.BigInt()})
			err = attempt(ctx, func(c sdk.Context) error {
				_, _, e := x.c.App.EVMKeeper.EVMCall(c, from, x.tokenAddr(c0.Denom), pack(erc20ABI, "transfer", to, c0.Amount.BigInt()), nil, nil)
				return e
			})
		}
		for _, c := range coins {
			if c.Denom != "zzz" {
				ds[c.Denom] = true
			}
		}
		x.r.Count(fmt.Sprintf("scratch_%s_%v", what, err == nil), 1)
		x.r.Distinct(fmt.Sprintf("scratch|%s|%d|%v", what, len(coins), err == nil))
		x.r.Eval(1)
		if (err == nil) != want {
			x.bad("scratch-"+what, "%s from %s (%s) to %s (%s) of %s: %v, want success %v", what, from, x.nameOf(from), to, x.nameOf(to), coins, err, want)
			return
		}
	}
	x.compareLedger(ctx, l, "scratch", ds)
}

// --- B04

func monB04(r *R) {
	r.Rule = histRule + "; privileged operations differing in function, caller and outcome"
	r.hists("hist", 24, 700, &watch{
		blocks: 8,
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, nil)
			ctx := x.c.QCtx()
			x.r.Eval(x.Compare(ctx, x.bad))
			for k, v := range x.L.allow {
				x.r.Eval(1)
				if a := viewInt(ctx, x.c, x.tokenAddr(k.denom), "allowance", k.owner, k.s); a.Cmp(v) != 0 {
					x.bad("allowance", "%s may spend %s of %s in %s, want %s", k.s, a, k.owner, k.denom, v)
				}
			}
			for d, o := range x.L.owner {
				x.r.Eval(1)
				out := view(ctx, x.c, x.tokenAddr(d), erc20ABI, "owner")
				if out == nil || out[0].(common.Address) != o {
					x.bad("owner", "owner of %s is %v, want %s", d, out, o)
				}
			}
			x.privileged()
		},
	})
}

// privileged tries the functions reserved to the chain, as the chain and as others.
func (x *hrun) privileged() {
	ctx := x.c.Scratch(0)
	l := x.L.clone()
	k := x.c.App.EVMKeeper
	bk := x.c.App.BankKeeper
	ds := map[string]bool{}
	for i := 0; i < 8; i++ {
		t := x.pickTok()
		ds[t.denom] = true
		a, b := x.pickTo(), x.pickTo()
		amt := big.NewInt(int64(1 + x.rng.Intn(500)))
		var caller common.Address
		switch x.rng.Intn(6) {
		case 0:
			caller = evmtypes.StdAddress
		case 1:
			caller = opchildAddr
		case 2:
			caller = t.addr
		case 3:
			caller = x.factory
		case 4:
			caller = evmtypes.NullAddress
		default:
			caller = x.pickTo()
		}
		chain := caller == evmtypes.StdAddress
		m := []string{"sudoTransfer", "sudoMint", "sudoBurn", "mint", "burnFrom", "transferFrom", "transferOwnership"}[x.rng.Intn(7)]
		var args []any
		var want bool
		switch m {
		case "sudoTransfer":
			args = []any{a, b, amt}
			want = chain && l.move(t.denom, a, b, amt)
		case "sudoMint":
			args = []any{b, amt}
			if want = chain && t.kind != "custom"; want { // InitiaERC20 only has sudoTransfer
				l.mint(t.denom, b, amt)
			}
		case "sudoBurn":
			args = []any{a, amt}
			want = chain && t.kind != "custom" && l.burn(t.denom, a, amt)
		case "mint":
			args = []any{b, amt}
			want = l.tokenCall(t.denom, m, caller, args)
		case "burnFrom":
			args = []any{a, amt}
			want = l.tokenCall(t.denom, m, caller, args)
		case "transferFrom":
			args = []any{a, b, amt}
			want = l.tokenCall(t.denom, m, caller, args)
		case "transferOwnership":
			args = []any{a}
			want = l.tokenCall(t.denom, m, caller, args)
		}
		err := attempt(ctx, func(c sdk.Context) error {
			_, _, e := k.EVMCall(c, caller, t.addr, pack(erc20ABI, m, args...), nil, nil)
			return e
		})
		x.r.Eval(1)
		x.r.Distinct(fmt.Sprintf("privileged|%s|%v|%v", m, chain, err == nil))
		x.r.Count(fmt.Sprintf("privileged_%s_chain=%v_%v", m, chain, err == nil), 1)
		if (err == nil) != want {
			x.bad("privileged-"+m, "%s of %s (%s) by %s (%s) %v: %v, want success %v", m, t.denom, t.kind, caller, x.nameOf(caller), args, err, want)
			return
		}
	}
	x.compareLedger(ctx, l, "privileged", ds)

	// module rights
	perms := minitiaapp.GetMaccPerms()
	names := make([]string, 0, len(perms))
	for n := range perms {
		names = append(names, n)
	}
	sort.Strings(names)
	has := func(n, p string) bool {
		for _, q := range perms[n] {
			if q == p {
				return true
			}
		}
		return false
	}
	for i := 0; i < 4; i++ {
		n := names[x.rng.Intn(len(names))]
		mod := common.BytesToAddress(authtypes.NewModuleAddress(n))
		l.addrs[mod] = true
		ds = map[string]bool{}
		coins := x.someCoins(collectorAddr)
		for _, c := range coins {
			ds[c.Denom] = true
		}
		ext := false
		valid := coins.IsValid()
		for _, c := range coins {
			ext = ext || evmtypes.IsERC20Denom(c.Denom)
			if new(big.Int).Add(l.Sup(c.Denom), c.Amount.BigInt()).BitLen() > 256 {
				valid = false
			}
		}
		want := has(n, authtypes.Minter) && !ext && valid
		err := attempt(ctx, func(c sdk.Context) error { return bk.MintCoins(c, n, coins) })
		x.r.Eval(1)
		x.r.Count(fmt.Sprintf("module_mint_%v", err == nil), 1)
		if (err == nil) != want {
			x.bad("module-mint", "module %s (%v) mints %s: %v, want success %v", n, perms[n], coins, err, want)
			return
		}
		if want {
			for _, c := range coins {
				l.mint(c.Denom, mod, c.Amount.BigInt())
			}
		}
		x.compareLedger(ctx, l, "module mint", ds)

		// burn, of coins of every kind; give the module something first
		u := x.users[x.rng.Intn(len(x.users))]
		burn := x.someCoins(u.Eth)
		ds = map[string]bool{}
		s := l.Snap()
		given := true
		for _, c := range burn {
			ds[c.Denom] = true
			given = given && l.move(c.Denom, u.Eth, mod, c.Amount.BigInt())
		}
		if err := attempt(ctx, func(c sdk.Context) error { return bk.SendCoinsFromAccountToModule(c, u.Acc, n, burn) }); (err == nil) != given {
			x.bad("module-give", "%v", err)
			return
		}
		if !given {
			l.Restore(s)
			continue
		}
		want = has(n, authtypes.Burner)
		err = attempt(ctx, func(c sdk.Context) error { return bk.BurnCoins(c, n, burn) })
		x.r.Eval(1)
		x.r.Count(fmt.Sprintf("module_burn_%v", err == nil), 1)
		x.r.Distinct(fmt.Sprintf("burn|%v|%d|%v", want, len(burn), err == nil))
		if (err == nil) != want {
			x.bad("module-burn", "module %s (%v) burns %s: %v, want success %v", n, perms[n], burn, err, want)
			return
		}
		if want {
			for _, c := range burn {
				if evmtypes.IsERC20Denom(c.Denom) {
					l.move(c.Denom, mod, collectorAddr, c.Amount.BigInt())
				} else {
					l.burn(c.Denom, mod, c.Amount.BigInt())
				}
			}
		}
		x.compareLedger(ctx, l, fmt.Sprintf("burn of %s by %s", burn, n), ds)
	}
}

// --- B05

func monB05(r *R) {
	r.Rule = histRule + "; denominations differing in kind and how they came to be"
	r.hists("hist", 20, 600, &watch{
		blocks: 9,
		before: func(x *hrun, txs []*TxMeta) []*TxMeta {
			// several first sights of one denomination in a block
			if x.rng.Intn(2) == 0 {
				for i := 0; i < 3; i++ {
					if m := x.deposit(); m != nil {
						txs = append(txs, m)
					}
				}
			}
			return txs
		},
		block: func(x *hrun, txs []*TxMeta) {
			x.mapping(x.c.QCtx())
			x.failingCreation()
		},
		end: func(x *hrun) { x.aliases() },
	})
}

// mapping checks that denominations and contracts map one to one and never change.
func (x *hrun) mapping(ctx sdk.Context) {
	k := x.c.App.EVMKeeper
	byDenom := map[string]common.Address{}
	byAddr := map[common.Address]string{}
	must(k.ERC20ContractAddrsByDenom.Walk(ctx, nil, func(d string, a []byte) (bool, error) {
		byDenom[d] = common.BytesToAddress(a)
		return false, nil
	}))
	must(k.ERC20DenomsByContractAddr.Walk(ctx, nil, func(a []byte, d string) (bool, error) {
		byAddr[common.BytesToAddress(a)] = d
		return false, nil
	}))
	for d, a := range byDenom {
		x.r.Eval(1)
		if byAddr[a] != d {
			x.bad("mapping", "%s has contract %s, whose denomination is %q", d, a, byAddr[a])
		}
		if strings.HasPrefix(d, "evm/") {
			x.bad("mapping", "the generic denomination %s has a mapped contract", d)
		}
	}
	for a, d := range byAddr {
		x.r.Eval(1)
		if byDenom[d] != a {
			x.bad("mapping", "contract %s has denomination %s, whose contract is %s", a, d, byDenom[d])
		}
	}
	// never change
	if old, ok := x.state["map"].(map[string]common.Address); ok {
		for d, a := range old {
			x.r.Eval(1)
			if byDenom[d] != a {
				x.bad("mapping-changed", "%s moved from %s to %s", d, a, byDenom[d])
			}
		}
	}
	x.state["map"] = byDenom
	// every registered contract has exactly one denomination, also as seen from contracts
	seen := map[string]common.Address{}
	must(k.ERC20s.Walk(ctx, nil, func(bz []byte) (bool, error) {
		a := common.BytesToAddress(bz)
		d, err := evmtypes.ContractAddrToDenom(ctx, k, a)
		if err != nil {
			x.bad("mapping", "no denomination of %s: %v", a, err)
			return false, nil
		}
		if o, dup := seen[d]; dup {
			x.bad("mapping", "%s and %s share %s", o, a, d)
		}
		seen[d] = a
		back, err := evmtypes.DenomToContractAddr(ctx, k, d)
		if err != nil || back != a {
			x.bad("mapping", "%s -> %s -> %s %v", a, d, back, err)
		}
		if _, native := byAddr[a]; !native && d != "evm/"+a.Hex()[2:] {
			x.bad("mapping", "the generic denomination of %s is %s", a, d)
		}
		out := view(ctx, x.c, cosmosPrecompile, cosmosABI, "to_denom", a)
		if out == nil || out[0].(string) != d {
			x.bad("mapping-contract", "to_denom(%s) is %v, want %s", a, out, d)
		}
		out = view(ctx, x.c, cosmosPrecompile, cosmosABI, "to_erc20", d)
		if out == nil || out[0].(common.Address) != a {
			x.bad("mapping-contract", "to_erc20(%s) is %v, want %s", d, out, a)
		}
		var dr evmtypes.QueryDenomResponse
		if err := grpc(x.c, 0, "/minievm.evm.v1.Query/Denom", &evmtypes.QueryDenomRequest{ContractAddr: a.Hex()}, &dr); err != nil || dr.Denom != d {
			x.bad("mapping-query", "Denom(%s) is %v %v, want %s", a, dr.Denom, err, d)
		}
		var cr evmtypes.QueryContractAddrByDenomResponse
		if err := grpc(x.c, 0, "/minievm.evm.v1.Query/ContractAddrByDenom", &evmtypes.QueryContractAddrByDenomRequest{Denom: d}, &cr); err != nil || common.HexToAddress(cr.Address) != a {
			x.bad("mapping-query", "ContractAddrByDenom(%s) is %v %v, want %s", d, cr.Address, err, a)
		}
		x.r.Eval(5)
		x.r.Distinct("denom|" + strings.SplitN(d, "/", 2)[0])
		return false, nil
	}))
	for _, t := range x.tokens {
		if seen[t.denom] != t.addr {
			x.bad("mapping", "%s is %s, want %s", t.denom, seen[t.denom], t.addr)
		}
	}
	x.r.Count("mappings_checked", len(seen))
}

// failingCreation: a creation that fails leaves nothing behind and the next one works.
func (x *hrun) failingCreation() {
	ctx := x.c.Scratch(0)
	bk := x.c.App.BankKeeper
	k := x.c.App.EVMKeeper
	d := fmt.Sprintf("once%d", x.rng.Intn(1000))
	big1 := sdk.NewCoins(sdk.NewCoin(d, math.NewInt(5)))
	snap := x.c.DumpCtx(ctx)
	switch x.rng.Intn(3) {
	case 0: // mint, then the transaction fails
		_ = attempt(ctx, func(c sdk.Context) error {
			if err := bk.MintCoins(c, opchildtypes.ModuleName, big1); err != nil {
				return err
			}
			return fmt.Errorf("later failure")
		})
	case 1: // runs out of gas at some point of the creation
		_ = attempt(ctx, func(c sdk.Context) error {
			return bk.MintCoins(limited(c, uint64(20_000+x.rng.Intn(1_500_000))), opchildtypes.ModuleName, append(big1, sdk.NewCoin("evm/"+common.HexToAddress("0xbeef").Hex()[2:], math.NewInt(1))))
		})
	case 2: // a contract has the factory create a token and fails afterwards
		p := x.puppets[0]
		_, _, _ = k.EVMCall(ctx, x.users[0].Eth, p, script(rec(pCall, x.factory, nil, pack(factoryABI, "createERC20", d, d, uint8(6))), rec(pRevert, nil, nil, nil)), nil, nil)
	}
	if df := verifkit.Diff(snap, x.c.DumpCtx(ctx)); len(df) > 0 {
		x.bad("failed-creation", "a failed creation left %s", verifkit.DiffString(df, 5))
	}
	x.r.Eval(1)
	if err := attempt(ctx, func(c sdk.Context) error { return bk.MintCoins(c, opchildtypes.ModuleName, big1) }); err != nil {
		x.bad("failed-creation", "creation after a failed one: %v", err)
		return
	}
	a, err := evmtypes.DenomToContractAddr(ctx, k, d)
	if err != nil {
		x.bad("failed-creation", "%v", err)
		return
	}
	if b := viewInt(ctx, x.c, a, "balanceOf", opchildAddr); b.Int64() != 5 {
		x.bad("failed-creation", "balance %s, want 5", b)
	}
	// minting more uses the same contract
	_ = bk.MintCoins(ctx, opchildtypes.ModuleName, big1)
	if b, _ := evmtypes.DenomToContractAddr(ctx, k, d); b != a {
		x.bad("mapping-changed", "%s moved from %s to %s", d, a, b)
	}
	if dd, _ := evmtypes.ContractAddrToDenom(ctx, k, a); dd != d {
		x.bad("mapping", "%s -> %s -> %s", d, a, dd)
	}
}

// aliases: other spellings of a generic denomination must not name a token.
func (x *hrun) aliases() {
	ctx := x.c.Scratch(0)
	k := x.c.App.EVMKeeper
	for _, t := range x.tokens {
		h := t.addr.Hex()[2:]
		lo, up := "evm/"+strings.ToLower(h), "evm/"+strings.ToUpper(h)
		for _, alias := range []string{lo, up, "evm/0x" + h, "evm/" + h, "evm/ " + h, "evm//" + h, "EVM/" + h, "evm/00" + h, "evm/" + h + "00", h, "0x" + h, "evm/" + h + "/"} {
			if alias == t.denom {
				continue
			}
			sig := "denom-alias"
			switch {
			case alias == "evm/"+h:
				sig = "denom-alias-native" // a native denomination's contract under the generic form
			case alias == lo || alias == up:
				sig = "denom-alias-case"
			case alias == "evm/0x"+h:
				sig = "denom-alias-0x"
			}
			a, err := evmtypes.DenomToContractAddr(ctx, k, alias)
			x.r.Eval(1)
			if err == nil && a == t.addr {
				x.bad(sig, "%s names the contract %s of %s", alias, a, t.denom)
			}
		}
	}
	// what is no address names nothing
	for _, d := range []string{"evm/", "evm/zz", "evm/1234", "evm/" + strings.Repeat("0", 42), "evm/" + strings.Repeat("g", 40)} {
		x.r.Eval(1)
		if a, err := evmtypes.DenomToContractAddr(ctx, k, d); err == nil {
			for _, t := range x.tokens {
				if t.addr == a {
					x.bad("denom-garbage", "%s names %s", d, t.denom)
				}
			}
		}
	}
}

// --- B07

func monB07(r *R) {
	r.Rule = histRule
	r.hists("hist", 30, 800, &watch{
		blocks: 10,
		per:    8,
		before: func(x *hrun, txs []*TxMeta) []*TxMeta {
			for i := 0; i < 4; i++ {
				if x.rng.Intn(3) > 0 {
					if m := x.deposit(); m != nil {
						txs = append(txs, m)
					}
				}
			}
			return txs
		},
		start: func(x *hrun) {
			n, err := x.c.App.OPChildKeeper.GetNextL2Sequence(x.c.QCtx())
			must(err)
			x.state["l2"] = n
		},
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, func(m *TxMeta) bool { return m.Bridge != nil || m.Wd != nil })
			x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
			x.bridgeEvents(txs)
			x.bridgeScratch()
		},
	})
}

// bridgeEvents follows deposits and withdrawals through their events and the sequences.
func (x *hrun) bridgeEvents(txs []*TxMeta) {
	ctx := x.c.QCtx()
	l2 := x.state["l2"].(uint64)
	done, _ := x.state["done"].(map[uint64]bool)
	if done == nil {
		done = map[uint64]bool{}
		x.state["done"] = done
	}
	for _, m := range txs {
		type ev = map[string]string
		var fins, wds []ev
		for _, e := range m.Res.Events {
			at := ev{}
			for _, a := range e.Attributes {
				at[a.Key] = a.Value
			}
			switch e.Type {
			case opchildtypes.EventTypeFinalizeTokenDeposit:
				fins = append(fins, at)
			case opchildtypes.EventTypeInitiateTokenWithdrawal:
				wds = append(wds, at)
			}
		}
		x.r.Eval(1)
		if m.Res.Code != 0 {
			if len(fins)+len(wds) > 0 {
				x.bad("bridge-event", "a failed transaction announced %v %v", fins, wds)
			}
			continue
		}
		for _, w := range wds {
			if w["l2_sequence"] != fmt.Sprint(l2) {
				x.bad("l2-sequence", "withdrawal has sequence %s, want %d", w["l2_sequence"], l2)
			}
			l2++
		}
		if b := m.Bridge; b != nil {
			if b.res != "ok" {
				if len(fins)+len(wds) > 0 {
					x.bad("bridge-event", "%s announced %v %v", m.Kind, fins, wds)
				}
				continue
			}
			if done[b.seq] {
				x.bad("deposit-twice", "deposit %d took effect twice", b.seq)
			}
			done[b.seq] = true
			good := !b.blocked && (b.hook == "" || b.hook == "ok") || b.amt.Sign() == 0 && b.hook == ""
			if len(fins) != 1 {
				x.bad("bridge-event", "%d deposit events of one deposit", len(fins))
				continue
			}
			f := fins[0]
			if f["recipient"] != b.to || f["denom"] != b.denom || f["amount"] != b.amt.String() || f["base_denom"] != b.base || f["l1_sequence"] != fmt.Sprint(b.seq) {
				x.bad("bridge-event", "deposit event %v of %+v", f, *b)
			}
			if b.hook == "ok" { // a hook may fail for its own reasons (funds); it must say so
				good = f["success"] == "true"
			}
			if (f["success"] == "true") != good {
				x.bad("bridge-event", "deposit %s announced success %s: %s", m.Kind, f["success"], f["reason"])
			}
			wantW := 1
			if good {
				wantW = 0
			}
			if len(wds) != wantW {
				x.bad("bridge-return", "%s: %d withdrawals answer a deposit with success %v", m.Kind, len(wds), good)
			} else if wantW == 1 && (wds[0]["denom"] != b.denom || wds[0]["amount"] != b.amt.String() || wds[0]["from"] != b.to || wds[0]["base_denom"] != b.base) {
				x.bad("bridge-return", "deposit %+v is answered by withdrawal %v", *b, wds[0])
			}
			md, ok := x.c.App.BankKeeper.GetDenomMetaData(ctx, b.denom)
			if !ok || md.Base != b.denom || md.Display != b.base {
				x.bad("bridge-metadata", "metadata of %s: %v %v", b.denom, ok, md)
			}
			x.r.Count("deposits_followed", 1)
		}
		if m.Wd != nil {
			if len(wds) != 1 || wds[0]["amount"] != m.Wd.Amount.String() || wds[0]["denom"] != m.Wd.Denom {
				x.bad("bridge-event", "withdrawal of %s announced %v", m.Wd, wds)
			}
			x.r.Count("withdrawals_followed", 1)
		}
	}
	n2, err := x.c.App.OPChildKeeper.GetNextL2Sequence(ctx)
	must(err)
	n1, err := x.c.App.OPChildKeeper.GetNextL1Sequence(ctx)
	must(err)
	x.r.Eval(2)
	if n2 != l2 {
		x.bad("l2-sequence", "next withdrawal sequence %d, want %d", n2, l2)
	}
	if n1 != x.l1seq {
		x.bad("l1-sequence", "next deposit sequence %d, want %d", n1, x.l1seq)
	}
	x.state["l2"] = n2
}

// bridgeScratch mints, moves and burns through the functions IBC and the bridge use.
func (x *hrun) bridgeScratch() {
	ctx := x.c.Scratch(0)
	bk := x.c.App.BankKeeper
	l := x.L.clone()
	ds := map[string]bool{}
	for i := 0; i < 6; i++ {
		// a voucher: minted by the transfer module, sent to somebody, later sent back and burnt; and escrow of a local coin
		mod := common.BytesToAddress(authtypes.NewModuleAddress("transfer"))
		l.addrs[mod] = true
		esc := common.BytesToAddress([]byte("escrow-address-of-ch"))
		u := x.users[x.rng.Intn(len(x.users))]
		t := x.pickTok()
		amt := big.NewInt(int64(1 + x.rng.Intn(3000)))
		c := sdk.NewCoins(sdk.NewCoin(t.denom, math.NewIntFromBigInt(amt)))
		ds[t.denom] = true
		var want bool
		var err error
		var what string
		s := l.Snap()
		switch x.rng.Intn(4) {
		case 0:
			what = "voucher"
			want = !evmtypes.IsERC20Denom(t.denom)
			if want {
				l.mint(t.denom, u.Eth, amt)
			}
			err = attempt(ctx, func(cc sdk.Context) error {
				if err := bk.MintCoins(cc, "transfer", c); err != nil {
					return err
				}
				return bk.SendCoinsFromModuleToAccount(cc, "transfer", u.Acc, c)
			})
		case 1:
			what = "burn-voucher"
			if evmtypes.IsERC20Denom(t.denom) {
				want = l.move(t.denom, u.Eth, collectorAddr, amt)
			} else {
				want = l.burn(t.denom, u.Eth, amt)
			}
			err = attempt(ctx, func(cc sdk.Context) error {
				if err := bk.SendCoinsFromAccountToModule(cc, u.Acc, "transfer", c); err != nil {
					return err
				}
				return bk.BurnCoins(cc, "transfer", c)
			})
		case 2:
			what = "escrow"
			want = l.move(t.denom, u.Eth, esc, amt)
			err = attempt(ctx, func(cc sdk.Context) error { return bk.SendCoins(cc, u.Acc, esc.Bytes(), c) })
		case 3:
			what = "unescrow"
			want = l.move(t.denom, esc, u.Eth, amt)
			err = attempt(ctx, func(cc sdk.Context) error { return bk.SendCoins(cc, esc.Bytes(), u.Acc, c) })
		}
		if !want {
			l.Restore(s)
		}
		x.r.Eval(1)
		x.r.Distinct(fmt.Sprintf("flow|%s|%s|%v", what, t.kind, err == nil))
		x.r.Count(fmt.Sprintf("flow_%s_%v", what, err == nil), 1)
		if (err == nil) != want {
			x.bad("flow-"+what, "%s of %s: %v, want success %v", what, c, err, want)
			return
		}
	}
	x.compareLedger(ctx, l, "flow", ds)
}
