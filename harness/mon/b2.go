package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"cosmossdk.io/math"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	bankcustomtypes "github.com/initia-labs/initia/x/bank/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["B02"] = monB02 }

// pageThrough collects a paged list; ask returns coins and the page response.
func pageThrough(rng *rand.Rand, ask func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error)) (sdk.Coins, uint64, string, error) {
	lim := uint64(1 + rng.Intn(4))
	rev := rng.Intn(2) == 0
	byKey := rng.Intn(2) == 0
	mode := fmt.Sprintf("limit %d reverse %v by key %v", lim, rev, byKey)
	var out sdk.Coins
	p := &query.PageRequest{Limit: lim, Reverse: rev, CountTotal: true}
	total, have := uint64(0), false
	for i := 0; i < 200; i++ {
		cs, pr, err := ask(p)
		if err != nil {
			return nil, 0, mode, err
		}
		if uint64(len(cs)) > lim {
			return nil, 0, mode, fmt.Errorf("a page of %d for a limit of %d", len(cs), lim)
		}
		if !have && pr != nil && p.Key == nil {
			total, have = pr.Total, true
		}
		out = append(out, cs...)
		if pr == nil || len(pr.NextKey) == 0 {
			return out, total, mode, nil
		}
		if byKey {
			p = &query.PageRequest{Limit: lim, Reverse: rev, Key: pr.NextKey}
		} else {
			p = &query.PageRequest{Limit: lim, Reverse: rev, Offset: uint64(len(out)), CountTotal: true}
		}
	}
	return nil, 0, mode, fmt.Errorf("paging does not end")
}

// sameCoins compares a list with the truth; zero entries are tolerated.
func sameCoins(got sdk.Coins, want map[string]*big.Int) string {
	seen := map[string]bool{}
	for _, c := range got {
		if seen[c.Denom] {
			return "lists " + c.Denom + " twice"
		}
		seen[c.Denom] = true
		w := want[c.Denom]
		if w == nil {
			w = new(big.Int)
		}
		if c.Amount.BigInt().Cmp(w) != 0 {
			return fmt.Sprintf("says %s%s, the contract says %s", c.Amount, c.Denom, w)
		}
	}
	var miss []string
	for d, w := range want {
		if w.Sign() > 0 && !seen[d] {
			miss = append(miss, w.String()+d)
		}
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		return fmt.Sprint("does not list ", miss)
	}
	return ""
}

// bankStory compares everything the bank says about one account with the contracts.
func (x *hrun) bankStory(ctx sdk.Context, acc sdk.AccAddress, viaGrpc bool) {
	bk := x.c.App.BankKeeper
	who := evmAddr(acc)
	want := map[string]*big.Int{}
	for _, t := range x.tokens {
		want[t.denom] = viewInt(ctx, x.c, t.addr, "balanceOf", who)
	}
	nm := x.nameOf(who)
	check := func(what, msg string) {
		x.r.Eval(1)
		if msg != "" {
			x.bad("bank-"+what, "%s of %s (%s): %s", what, acc, nm, msg)
		}
	}
	one := func(what string, c sdk.Coin) {
		x.r.Eval(1)
		if c.Amount.BigInt().Cmp(want[c.Denom]) != 0 {
			x.bad("bank-"+what, "%s of %s (%s) in %s is %s, the contract says %s", what, acc, nm, c.Denom, c.Amount, want[c.Denom])
		}
	}
	for _, t := range x.tokens {
		one("GetBalance", bk.GetBalance(ctx, acc, t.denom))
		one("SpendableCoin", bk.SpendableCoin(ctx, acc, t.denom))
		w := math.NewIntFromBigInt(want[t.denom])
		if !bk.HasBalance(ctx, acc, sdk.NewCoin(t.denom, w)) || w.BigInt().BitLen() < 255 && bk.HasBalance(ctx, acc, sdk.NewCoin(t.denom, w.AddRaw(1))) {
			check("HasBalance", fmt.Sprintf("wrong around %s%s", w, t.denom))
		}
	}
	check("GetAllBalances", sameCoins(bk.GetAllBalances(ctx, acc), want))
	check("SpendableCoins", sameCoins(bk.SpendableCoins(ctx, acc), want))
	var it sdk.Coins
	bk.IterateAccountBalances(ctx, acc, func(c sdk.Coin) bool { it = append(it, c); return false })
	check("IterateAccountBalances", sameCoins(it, want))
	if !viaGrpc {
		return
	}
	t := x.tokens[x.rng.Intn(len(x.tokens))]
	var b1 banktypes.QueryBalanceResponse
	if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/Balance", &banktypes.QueryBalanceRequest{Address: acc.String(), Denom: t.denom}, &b1); err != nil {
		check("Balance", err.Error())
	} else {
		one("Balance", *b1.Balance)
	}
	var b2 banktypes.QuerySpendableBalanceByDenomResponse
	if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/SpendableBalanceByDenom", &banktypes.QuerySpendableBalanceByDenomRequest{Address: acc.String(), Denom: t.denom}, &b2); err != nil {
		check("SpendableBalanceByDenom", err.Error())
	} else {
		one("SpendableBalanceByDenom", *b2.Balance)
	}
	var full banktypes.QueryAllBalancesResponse
	if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: acc.String()}, &full); err != nil {
		check("AllBalances", err.Error())
	} else {
		check("AllBalances", sameCoins(full.Balances, want))
	}
	got, total, mode, err := pageThrough(x.rng, func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
		var r banktypes.QueryAllBalancesResponse
		err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: acc.String(), Pagination: p}, &r)
		return r.Balances, r.Pagination, err
	})
	if err != nil {
		check("AllBalances-paged", mode+": "+err.Error())
	} else {
		if m := sameCoins(got, want); m != "" {
			check("AllBalances-paged", mode+": "+m)
		}
		if total != uint64(len(full.Balances)) || len(got) != len(full.Balances) {
			check("AllBalances-paged", fmt.Sprintf("%s: total %d, %d listed in pages, %d in one page", mode, total, len(got), len(full.Balances)))
		}
	}
	got, _, mode, err = pageThrough(x.rng, func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
		var r banktypes.QuerySpendableBalancesResponse
		err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/SpendableBalances", &banktypes.QuerySpendableBalancesRequest{Address: acc.String(), Pagination: p}, &r)
		return r.Balances, r.Pagination, err
	})
	if err != nil {
		check("SpendableBalances-paged", mode+": "+err.Error())
	} else {
		check("SpendableBalances-paged", sameCoins(got, want))
	}
	x.r.Count("accounts_paged", 1)
}

// supplyStory compares what the bank says about supplies with the contracts.
func (x *hrun) supplyStory(ctx sdk.Context, viaGrpc bool) {
	bk := x.c.App.BankKeeper
	want := map[string]*big.Int{}
	for _, t := range x.tokens {
		want[t.denom] = viewInt(ctx, x.c, t.addr, "totalSupply")
	}
	check := func(what, msg string) {
		x.r.Eval(1)
		if msg != "" {
			x.bad("supply-"+what, "%s: %s", what, msg)
		}
	}
	for _, t := range x.tokens {
		if s := bk.GetSupply(ctx, t.denom); s.Amount.BigInt().Cmp(want[t.denom]) != 0 {
			check("GetSupply", fmt.Sprintf("%s is %s, the contract says %s", t.denom, s.Amount, want[t.denom]))
		}
		if !bk.HasSupply(ctx, t.denom) {
			check("HasSupply", "no supply of "+t.denom)
		}
	}
	for _, d := range []string{"nosuch", "evm/00000000000000000000000000000000000000aa"} {
		if bk.HasSupply(ctx, d) {
			check("HasSupply", "supply of "+d)
		}
	}
	var it sdk.Coins
	bk.IterateTotalSupply(ctx, func(c sdk.Coin) bool { it = append(it, c); return false })
	check("IterateTotalSupply", sameCoins(it, want))
	if !viaGrpc {
		return
	}
	for _, t := range x.tokens {
		var r banktypes.QuerySupplyOfResponse
		if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/SupplyOf", &banktypes.QuerySupplyOfRequest{Denom: t.denom}, &r); err != nil {
			check("SupplyOf", err.Error())
		} else if r.Amount.Amount.BigInt().Cmp(want[t.denom]) != 0 {
			check("SupplyOf", fmt.Sprintf("%s is %s, the contract says %s", t.denom, r.Amount.Amount, want[t.denom]))
		}
	}
	var none banktypes.QuerySupplyOfResponse
	if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/SupplyOf", &banktypes.QuerySupplyOfRequest{Denom: "nosuch"}, &none); err != nil {
		check("SupplyOf", "the supply of an unknown denomination: "+err.Error())
	} else if !none.Amount.Amount.IsZero() {
		check("SupplyOf", "the supply of an unknown denomination is "+none.Amount.String())
	}
	var full banktypes.QueryTotalSupplyResponse
	if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{}, &full); err != nil {
		check("TotalSupply", err.Error())
	}
	check("TotalSupply", sameCoins(full.Supply, want))
	for i := 0; i < 3; i++ {
		got, total, mode, err := pageThrough(x.rng, func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			var r banktypes.QueryTotalSupplyResponse
			err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{Pagination: p}, &r)
			return r.Supply, r.Pagination, err
		})
		if err != nil {
			check("TotalSupply-paged", mode+": "+err.Error())
			continue
		}
		if m := sameCoins(got, want); m != "" {
			check("TotalSupply-paged", mode+": "+m)
		}
		if total != uint64(len(full.Supply)) || len(got) != len(full.Supply) {
			check("TotalSupply-paged", fmt.Sprintf("%s: total %d, %d listed in pages, %d in one page", mode, total, len(got), len(full.Supply)))
		}
	}
	var ow banktypes.QueryDenomOwnersResponse
	d := x.tokens[x.rng.Intn(len(x.tokens))]
	if err := grpc(x.c, 0, "/cosmos.bank.v1beta1.Query/DenomOwners", &banktypes.QueryDenomOwnersRequest{Denom: d.denom}, &ow); err == nil {
		for _, o := range ow.DenomOwners {
			a, err := sdk.AccAddressFromBech32(o.Address)
			if err != nil || viewInt(ctx, x.c, d.addr, "balanceOf", evmAddr(a)).Cmp(o.Balance.Amount.BigInt()) != 0 {
				check("DenomOwners", fmt.Sprintf("%v", o))
			}
		}
	}
}

// everybody compares the list of all accounts' balances with the contracts.
func (x *hrun) everybody(ctx sdk.Context) {
	seen := map[common.Address]bool{}
	for _, b := range x.c.App.BankKeeper.GetAccountsBalances(ctx) {
		a, err := sdk.AccAddressFromBech32(b.Address)
		must(err)
		if seen[evmAddr(a)] {
			x.bad("bank-GetAccountsBalances", "the holdings of %s are listed twice", b.Address)
		}
		seen[evmAddr(a)] = true
		want := map[string]*big.Int{}
		for _, t := range x.tokens {
			want[t.denom] = viewInt(ctx, x.c, t.addr, "balanceOf", evmAddr(a))
		}
		x.r.Eval(1)
		if m := sameCoins(b.Coins, want); m != "" {
			x.bad("bank-GetAccountsBalances", "%s: %s", b.Address, m)
		}
	}
	for _, a := range x.L.holders() {
		if seen[a] || !x.c.App.AccountKeeper.HasAccount(ctx, a.Bytes()) {
			continue
		}
		for _, d := range x.L.denoms() {
			if x.L.Bal(d, a).Sign() > 0 {
				x.bad("bank-GetAccountsBalances", "%s (%s) holds %s%s and is not listed", a, x.nameOf(a), x.L.Bal(d, a), d)
				break
			}
		}
	}
}

func monB02(r *R) {
	r.Rule = histRule
	r.hists("hist", 14, 500, &watch{
		blocks: 8,
		block: func(x *hrun, txs []*TxMeta) {
			ctx := x.c.QCtx()
			hs := x.L.holders()
			for i := 0; i < 5; i++ {
				x.bankStory(ctx, x.cosmosOf(hs[x.rng.Intn(len(hs))]), true)
			}
			x.bankStory(ctx, x.long.Acc, true)
			x.bankStory(ctx, x.long.Eth.Bytes(), true)
			x.supplyStory(ctx, true)
			x.everybody(ctx)
			x.crossTalk()
		},
		end: func(x *hrun) {
			ctx := x.c.QCtx()
			for _, a := range x.L.holders() {
				x.bankStory(ctx, a.Bytes(), true)
			}
		},
	})
	r.ParCase("metadata", r.N(10, 300), func(id string, rng *rand.Rand) { b02Metadata(r, id, rng) })
}

// crossTalk: a transfer through one interface is seen through the other within the same state.
func (x *hrun) crossTalk() {
	ctx := x.c.Scratch(0)
	k := x.c.App.EVMKeeper
	for i := 0; i < 4; i++ {
		t := x.pickTok()
		from, to := x.pickTo(), x.pickTo()
		if x.L.blocked[to] || x.L.blocked[from] {
			continue
		}
		amt := big.NewInt(int64(1 + x.rng.Intn(100)))
		if x.rng.Intn(2) == 0 {
			cc, write := ctx.CacheContext()
			if x.c.App.BankKeeper.SendCoins(cc, x.cosmosOf(from), x.cosmosOf(to), sdk.NewCoins(sdk.NewCoin(t.denom, math.NewIntFromBigInt(amt)))) == nil {
				write()
			}
		} else {
			cc, write := ctx.CacheContext()
			if _, _, err := k.EVMCall(cc, from, t.addr, pack(erc20ABI, "transfer", to, amt), nil, nil); err == nil {
				write()
			}
		}
		x.bankStory(ctx, x.cosmosOf(from), false)
		x.bankStory(ctx, x.cosmosOf(to), false)
	}
	// a new denomination, minted within this state
	d := fmt.Sprintf("brandnew%d", x.c.Height)
	if err := x.c.App.BankKeeper.MintCoins(ctx, "opchild", sdk.NewCoins(sdk.NewCoin(d, math.NewInt(77)))); err != nil {
		x.bad("mint", "%v", err)
		return
	}
	a, err := evmtypes.DenomToContractAddr(ctx, k, d)
	if err != nil {
		x.bad("mint", "no contract of the minted denom %s: %v", d, err)
		return
	}
	n := len(x.tokens)
	x.tokens = append(x.tokens, token{d, a, "native"})
	x.bankStory(ctx, opchildAddr.Bytes(), false)
	x.supplyStory(ctx, false)
	x.tokens = x.tokens[:n]
}

// b02Metadata: what the bank tells about a denomination is what its contract says, unless the
// authority has set something else.
func b02Metadata(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	k, bk := c.App.EVMKeeper, c.App.BankKeeper
	bad := func(sig, f string, a ...any) { r.Violate(id, sig, f, a...) }
	denoms := []string{verifkit.FeeDenom, "uusdc", "zeta", "ibc/ABCDEF"}
	for _, d := range []string{"mfoo", "uu1", "m/bar", "u/baz", "mmm", "l2/0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"} {
		must(bk.MintCoins(ctx, opchildtypes.ModuleName, sdk.NewCoins(verifkit.Coin(d, 5))))
		denoms = append(denoms, d)
	}
	for i := 0; i < 3; i++ {
		name, symbol := []string{"", "Token", "Ünï ☂", strings.Repeat("n", 300)}[rng.Intn(4)], []string{"", "TKN", "uTKN", "m☂"}[rng.Intn(4)]
		code := append(common.FromHex(initia_erc20.InitiaErc20Bin), mustPackCtor(name, symbol, []uint8{0, 6, 18}[rng.Intn(3)])...)
		_, at, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, code, nil, nil)
		must(err)
		denoms = append(denoms, "evm/"+at.Hex()[2:])
	}
	unknown := []string{"unknown", "evm/" + common.Address{7}.Hex()[2:], "ufoo"}
	set := map[string]banktypes.Metadata{}
	for _, m := range bk.GetAllDenomMetaData(ctx) {
		set[m.Base] = m
	}
	all := append(append([]string{}, denoms...), unknown...)
	for round := 0; round < 4; round++ {
		for _, d := range all {
			m1, e1 := bk.DenomMetadata(ctx, &banktypes.QueryDenomMetadataRequest{Denom: d})
			m2, e2 := bk.DenomMetadataByQueryString(ctx, &banktypes.QueryDenomMetadataByQueryStringRequest{Denom: d})
			r.Eval(1)
			if (e1 == nil) != (e2 == nil) || e1 == nil && m1.Metadata.String() != m2.Metadata.String() {
				bad("metadata-forms", "metadata of %s: %v %v, asked the other way: %v %v", d, m1, e1, m2, e2)
			}
			want, is := set[d]
			kind := "set"
			if !is {
				kind = "contract"
				at, err := evmtypes.DenomToContractAddr(ctx, k, d)
				var dec []any
				if err == nil {
					dec = view(ctx, c, at, erc20ABI, "decimals")
				}
				if dec == nil {
					r.Distinct("metadata|unknown")
					if e1 == nil {
						bad("metadata-unknown", "metadata of %s, which there is not: %v", d, m1)
					}
					continue
				}
				want = banktypes.Metadata{Name: view(ctx, c, at, erc20ABI, "name")[0].(string), Symbol: view(ctx, c, at, erc20ABI, "symbol")[0].(string), Base: d, Display: d,
					DenomUnits: []*banktypes.DenomUnit{{Denom: d}}}
				if exp := map[byte]uint32{'u': 6, 'm': 3}[d[0]]; exp > 0 && dec[0].(uint8) == 0 && !strings.Contains(d, "/") {
					want.Display = d[1:]
					want.DenomUnits = append(want.DenomUnits, &banktypes.DenomUnit{Denom: d[1:], Exponent: exp})
				}
				kind += fmt.Sprint(dec[0], len(want.DenomUnits))
			}
			r.Distinct("metadata|" + kind)
			r.Count("metadata_asked", 1)
			if e1 != nil || m1.Metadata.String() != want.String() {
				bad("metadata", "metadata of %s (%s): %v %v, not %v", d, kind, m1, e1, want)
			}
		}
		// all that were set, by pages
		var listed []banktypes.Metadata
		page := &query.PageRequest{Limit: uint64(1 + rng.Intn(4))}
		for {
			res, err := bk.DenomsMetadata(ctx, &banktypes.QueryDenomsMetadataRequest{Pagination: page})
			must(err)
			listed = append(listed, res.Metadatas...)
			if len(res.Pagination.NextKey) == 0 || len(listed) > 1000 {
				break
			}
			page.Key = res.Pagination.NextKey
		}
		r.Eval(1)
		seen := map[string]bool{}
		for _, m := range listed {
			w, is := set[m.Base]
			if !is || seen[m.Base] || w.String() != m.String() {
				bad("metadata-list", "listed %v, set is %v, listed before: %v", m, w, seen[m.Base])
			}
			seen[m.Base] = true
		}
		if len(seen) != len(set) {
			bad("metadata-list", "%d listed by pages of %d, %d set", len(seen), page.Limit, len(set))
		}
		// some are set, rightly or not
		for i := 0; i < 3; i++ {
			d := all[rng.Intn(len(all))]
			m := banktypes.Metadata{Name: "n" + fmt.Sprint(i, round), Symbol: "S", Base: d, Display: "big" + fmt.Sprint(i), Description: "x", URI: "u",
				DenomUnits: []*banktypes.DenomUnit{{Denom: d, Aliases: []string{"al" + fmt.Sprint(round, i)}}, {Denom: "big" + fmt.Sprint(i), Exponent: uint32(1 + rng.Intn(18))}}}
			auth, good := authorityAddr(), true
			switch rng.Intn(5) {
			case 0:
				auth, good = []string{c.Accs[0].Bech(), c.Val.Bech(), "", authtypes.NewModuleAddress("gov").String()}[rng.Intn(4)], false
			case 1:
				m.DenomUnits, good = m.DenomUnits[1:], false
			}
			msg := &bankcustomtypes.MsgSetDenomMetadata{Authority: auth, Metadata: m}
			err := attempt(ctx, func(ctx sdk.Context) error {
				_, err := c.App.MsgServiceRouter().Handler(msg)(ctx, msg)
				return err
			})
			r.Eval(1)
			r.Count(fmt.Sprintf("metadata_set_%v", err == nil), 1)
			if (err == nil) != good {
				bad("metadata-set", "setting %v by %s: %v", m, auth, err)
			} else if good {
				set[d] = m
			}
		}
	}
}
