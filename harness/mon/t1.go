package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() {
	monitors["T01"] = monT01
	monitors["T02"] = monT02
	monitors["T03"] = monT03
}

// blockKeys learns which records every block changes, whatever is in it.
func (x *hrun) blockKeys() {
	cls, _ := x.state["blockkeys"].(map[string]bool)
	if cls == nil {
		cls = map[string]bool{}
		x.state["blockkeys"] = cls
	}
	for i := 0; i < 3; i++ {
		a := x.c.Dump()
		if x.c.Block() == nil {
			x.bad("halt", "%v", x.c.HaltErr)
			return
		}
		for _, e := range verifkit.Diff(a, x.c.Dump()) {
			cls[blockKey(e)] = true
		}
	}
}

// blockKey is the class of a record: the store, the prefix byte and the key length; whole keys where they are short.
func blockKey(e verifkit.DiffEntry) string {
	if len(e.Key) < 3 {
		return fmt.Sprintf("%s/%x", e.Store, e.Key)
	}
	return fmt.Sprintf("%s/%x/%d", e.Store, e.Key[0], len(e.Key))
}

// withoutBlockKeys drops the records that change with every block.
func (x *hrun) withoutBlockKeys(d []verifkit.DiffEntry) []verifkit.DiffEntry {
	cls := x.state["blockkeys"].(map[string]bool)
	var out []verifkit.DiffEntry
	for _, e := range d {
		if !cls[blockKey(e)] {
			out = append(out, e)
		}
	}
	return out
}

// afterFee is the state in which only the fee of m is paid and its sequences are used.
func (x *hrun) afterFee(m *TxMeta) (verifkit.Dump, error) {
	ctx := x.c.Scratch(0)
	ak := x.c.App.AccountKeeper
	if len(m.Fee) > 0 && !m.Fee.IsZero() {
		if err := x.c.App.BankKeeper.SendCoinsFromAccountToModule(ctx, x.cosmosOf(m.Payer), authtypes.FeeCollectorName, m.Fee); err != nil {
			return nil, err
		}
	}
	for _, s := range m.Signers {
		acc := ak.GetAccount(ctx, s.Acc)
		if acc == nil {
			return nil, fmt.Errorf("no account")
		}
		if acc.GetPubKey() == nil {
			must(acc.SetPubKey(s.Priv.PubKey()))
		}
		must(acc.SetSequence(acc.GetSequence() + 1))
		ak.SetAccount(ctx, acc)
	}
	return x.c.DumpCtx(ctx), nil
}

func monT01(r *R) {
	r.Rule = histRule + "; only failed and rejected transactions count"
	failing := map[string]int{"bank": 40, "deposit": 50, "factory": 60, "custom": 60, "sendenabled": 40, "withdraw": 60, "eth-value": 50}
	r.hists("single", 24, 500, &watch{
		blocks: 45, per: 1,
		start: func(x *hrun) { x.blockKeys(); x.Weights = failing },
		before: func(x *hrun, txs []*TxMeta) []*TxMeta {
			for len(txs) == 0 {
				txs = x.GenBlock(1)
			}
			m := txs[0]
			if x.rng.Intn(4) == 0 {
				m = x.gasCut(m)
				txs = []*TxMeta{m}
			}
			x.state["pre"] = x.c.Dump()
			d, err := x.afterFee(m)
			if err != nil {
				d = nil
			}
			x.state["fee"] = d
			return txs
		},
		block: func(x *hrun, txs []*TxMeta) {
			m := txs[0]
			n, err := x.c.App.OPChildKeeper.GetNextL1Sequence(x.c.QCtx())
			must(err)
			x.l1seq = n // a deposit cut short did not take its turn
			x.r.Eval(1)
			if p := m.Mispredicted(); p != "" {
				x.bad("outcome-"+m.Kind, "%s [%s] %s: %s", m.Kind, m.Shape, p, m.Res.Log)
			}
			if m.Res.Code == 0 {
				x.rare(m)
				return
			}
			want := x.state["pre"].(verifkit.Dump)
			sig, what := "rejected-left", "rejected"
			if m.Expect != xReject {
				sig, what = "failed-left", "failed"
				want = x.state["fee"].(verifkit.Dump)
				if want == nil {
					x.bad("fee", "a transaction that cannot pay its fee was not rejected: %s", m.Res.Log)
					return
				}
			}
			x.r.Count(what, 1)
			x.r.Distinct("failure|" + what + "|" + m.Kind + "|" + m.Shape + "|" + logClass(m.Res.Log))
			if d := x.withoutBlockKeys(verifkit.Diff(want, x.c.Dump())); len(d) > 0 {
				x.bad(sig, "a %s transaction %s [%s] (%s) left %d more records than it should:\n%s", what, m.Kind, m.Shape, m.Res.Log, len(d), verifkit.DiffString(d, 8))
			}
		},
	})
}

// logClass is a failure reason without its numbers.
func logClass(s string) string {
	if i := strings.IndexByte(s, '['); i > 0 {
		s = s[:i]
	}
	s = strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
	if len(s) > 50 {
		s = s[:50]
	}
	return s
}

// rare keeps some state for later histories.
func (x *hrun) rare(m *TxMeta) { x.r.Count("succeeded", 1) }

// gasCut signs a transaction again with less gas, so that it stops somewhere inside.
func (x *hrun) gasCut(m *TxMeta) *TxMeta {
	if m.Expect != xModel || len(m.Signers) != 1 || strings.Contains(m.Kind, "granted") || m.Kind == "cosigned" {
		return m
	}
	if strings.Contains(m.Shape, "?") || strings.Contains(m.Shape, "box") || m.Bridge != nil {
		return m // a failure inside is caught: less gas may give another success
	}
	base := uint64(60_000)
	base += uint64(10*len(m.Bytes)) + uint64(x.rng.Intn(600_000))
	if m.IsEth() {
		e := m.Eth
		t := verifkit.EthTx{Type: e.Type(), Nonce: e.Nonce(), To: e.To(), Data: e.Data(), Value: e.Value(), Gas: base, FeeCap: e.GasFeeCap(), TipCap: e.GasTipCap(), AL: e.AccessList()}
		tx := x.c.SignEth(m.Signers[0], t)
		_, bz, err := x.c.EthToCosmos(tx)
		must(err)
		fee := evmtypes.FromEthersUnit(x.feeDec(), new(big.Int).Mul(e.GasFeeCap(), new(big.Int).SetUint64(base)))
		if e.GasFeeCap().Sign() > 0 {
			fee.Add(fee, big.NewInt(1))
		}
		m.Bytes, m.Eth, m.Fee, m.Gas = bz, tx, sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, math.NewIntFromBigInt(fee))), base
	} else {
		if len(m.Fee) > 1 {
			return m
		}
		m.Bytes = x.c.Cosmos(verifkit.CosmosTx{Msgs: m.Msgs, Signers: m.Signers, Seqs: m.Seqs, Gas: base, Fee: m.Fee})
		m.Gas = base
	}
	m.Expect = xLoose
	m.Kind += "-cut"
	return m
}

// --- T02

func monT02(r *R) {
	r.Rule = histRule + "; replays differing in what the first inclusion did and where the second came"
	r.hists("hist", 24, 700, &watch{
		blocks: 10,
		start: func(x *hrun) {
			seen := map[string]uint64{}
			x.state["seq"] = seen
			for _, a := range x.everyone() {
				seen[string(a.Acc)] = x.c.Seq(a.Acc)
			}
		},
		before: func(x *hrun, txs []*TxMeta) []*TxMeta {
			var out []*TxMeta
			put := func(m *TxMeta, how string) {
				if m.Wd != nil || m.Bridge != nil || m.Expect == xReject {
					// deposits are tried as well, without their own bookkeeping
				}
				out = append(out, &TxMeta{Kind: "replay-" + how, Bytes: m.Bytes, Signers: m.Signers, Seqs: m.Seqs, Payer: m.Payer, Fee: m.Fee, Gas: m.Gas, Expect: xReject, Shape: m.Kind})
			}
			for _, m := range txs {
				if x.rng.Intn(3) == 0 {
					if o := x.someIncluded(); o != nil {
						put(o, "old")
					}
				}
				out = append(out, m)
				if m.Expect == xModel && x.rng.Intn(4) == 0 {
					put(m, "same-block")
				}
				// the carried transaction of a hook on its own
				if m.Bridge != nil && x.rng.Intn(2) == 0 && strings.Contains(m.Kind, "hook-ok") {
					if o := x.hookAlone(m); o != nil {
						out = append(out, o)
					}
				}
			}
			return out
		},
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, func(m *TxMeta) bool { return m.Expect == xReject })
			x.sequences(txs)
			x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
			x.checkReplays(txs)
		},
	})
}

func (x *hrun) everyone() []*verifkit.Account {
	return append(append(append([]*verifkit.Account{}, x.users...), x.hookers...), x.c.Val, x.long)
}

// hookAlone submits the transaction of a hook as one of its own after the deposit.
func (x *hrun) hookAlone(m *TxMeta) *TxMeta {
	if m.Hook == nil {
		return nil
	}
	return &TxMeta{Kind: "replay-hook", Bytes: m.Hook, Expect: xReject, Shape: m.Kind, Payer: m.HookSigner.Eth, Signers: []*verifkit.Account{m.HookSigner}}
}

// sequences follows the sequence numbers of everybody.
func (x *hrun) sequences(txs []*TxMeta) {
	seen := x.state["seq"].(map[string]uint64)
	want := map[string]uint64{}
	for k, v := range seen {
		want[k] = v
	}
	for _, m := range txs {
		if m.Expect == xReject {
			continue
		}
		for _, s := range m.Signers {
			want[string(s.Acc)]++
		}
		if m.Res.Code != 0 {
			continue
		}
		n := 0
		for _, g := range m.Msgs {
			switch g.(type) {
			case *evmtypes.MsgCall, *evmtypes.MsgCreate, *evmtypes.MsgCreate2:
				n++
			}
		}
		if n > 1 {
			want[string(m.Signers[0].Acc)] += uint64(n - 1)
		}
		if m.HookSigner != nil {
			want[string(m.HookSigner.Acc)]++
		}
	}
	ctx := x.c.QCtx()
	for _, a := range x.everyone() {
		now := x.c.Seq(a.Acc)
		x.r.Eval(1)
		if now < seen[string(a.Acc)] {
			x.bad("sequence-back", "sequence of %s went from %d to %d", a.Name, seen[string(a.Acc)], now)
		}
		if now != want[string(a.Acc)] {
			x.bad("sequence", "sequence of %s is %d, want %d", a.Name, now, want[string(a.Acc)])
		}
		seen[string(a.Acc)] = now
		if a == x.long {
			continue
		}
		db, err := x.c.App.EVMKeeper.NewStateDB(ctx, nil, evmtypes.Fee{})
		must(err)
		x.r.Eval(1)
		if n := db.GetNonce(a.Eth); n != now {
			x.bad("nonce", "ethereum nonce of %s is %d, sequence %d", a.Name, n, now)
		}
	}
	// contracts: nonces only grow
	for _, p := range x.puppets {
		n := x.c.Seq(p.Bytes())
		if n < seen[string(p.Bytes())] {
			x.bad("sequence-back", "nonce of contract %s went from %d to %d", p, seen[string(p.Bytes())], n)
		}
		seen[string(p.Bytes())] = n
		x.r.Eval(1)
	}
}

// checkReplays offers what was included to the mempool again.
func (x *hrun) checkReplays(txs []*TxMeta) {
	for i := 0; i < 3; i++ {
		m := txs[x.rng.Intn(len(txs))]
		if m.Expect == xReject {
			continue
		}
		res, err := x.c.Check(m.Bytes)
		x.r.Eval(1)
		x.r.Count("mempool_replays", 1)
		if err == nil && res.Code == 0 {
			x.bad("mempool-replay", "the mempool takes the included transaction %s again", m.Kind)
		}
	}
}

// --- T03

func monT03(r *R) {
	r.Rule = histRule + "; gas plans differing in where the work is done and how it ends"
	r.hists("hist", 20, 500, &watch{
		blocks: 8,
		cfg: func(rng *rand.Rand, c *verifkit.Config) {
			c.GasPrice = []string{"0.15", "2", "1", "13"}[rng.Intn(4)]
			ratio := []string{"0", "0.25", "0.5", "1", "0.333333333333333333"}[rng.Intn(5)]
			c.EVM = func(p *evmtypes.GenesisState) { p.Params.GasRefundRatio = math.LegacyMustNewDecFromStr(ratio) }
		},
		before: func(x *hrun, txs []*TxMeta) []*TxMeta {
			for i := 0; i < 3; i++ {
				if m := x.gasPlan(); m != nil {
					txs = append(txs, m)
				}
			}
			return txs
		},
		block: func(x *hrun, txs []*TxMeta) {
			x.outcomes(txs, nil)
			x.r.Eval(x.Compare(x.c.QCtx(), x.bad))
			x.gasRules(txs)
		},
		end: func(x *hrun) { x.topLevelHalt() },
	})
	r.ParCase("payers", r.N(16, 300), func(id string, rng *rand.Rand) { t03Payers(r, id, rng) })
}

// perLoop is the gas of one turn of the puppet's loop: PUSH SWAP SUB DUP PUSH JUMPI and the JUMPDEST.
const perLoop = 1 + 3 + 3 + 3 + 3 + 3 + 10

// gasPlan does a known amount of work in various places.
func (x *hrun) gasPlan() *TxMeta {
	a := x.eoa()
	if a == nil {
		return nil
	}
	r := x.rng
	work := 0
	loop := func() Rec {
		n := 200 + r.Intn(12_000)
		work += n * perLoop
		return rec(pLoop, n, nil, nil)
	}
	p := x.puppets[r.Intn(len(x.puppets))]
	q := x.puppets[r.Intn(len(x.puppets))]
	var recs []Rec
	var shape []string
	for i := 0; i < 1+r.Intn(4); i++ {
		switch r.Intn(7) {
		case 0:
			recs = append(recs, loop())
			shape = append(shape, "loop")
		case 1:
			recs = append(recs, rec(pCall, q, nil, script(loop())))
			shape = append(shape, "call")
		case 2:
			recs = append(recs, rec(pCallCatch, q, nil, script(loop(), rec(pRevert, nil, nil, nil))))
			shape = append(shape, "reverted-call")
		case 3: // a message carried out after the execution
			recs = append(recs, execCosmos(x.msgCallJSON(p, q, script(loop()))))
			shape = append(shape, "message")
		case 4:
			recs = append(recs, rec(pStatic, q, nil, script(loop())))
			shape = append(shape, "static")
		case 5:
			recs = append(recs, rec(pDelegate, q, nil, script(loop())))
			shape = append(shape, "delegate")
		case 6: // a message of a message
			recs = append(recs, execCosmos(x.msgCallJSON(p, q, script(loop(), execCosmos(x.msgCallJSON(q, p, script(loop())))))))
			shape = append(shape, "message-message")
		}
	}
	end := r.Intn(5) == 0
	if end {
		recs = append(recs, rec(pRevert, nil, nil, nil))
		// what only a message would do is not done
		work = 0
		shape = append(shape, "revert")
	}
	gas := uint64(work) + 3_000_000
	caught := strings.Contains(strings.Join(shape, ","), "delegate") || strings.Contains(strings.Join(shape, ","), "static") || strings.Contains(strings.Join(shape, ","), "reverted")
	short := r.Intn(3) == 0 && work > 200_000 && !caught
	if short {
		gas = uint64(work)/2 + uint64(r.Intn(work/2))
		shape = append(shape, "short")
	}
	data := script(recs...)
	var m *TxMeta
	if r.Intn(3) > 0 {
		m = x.ethTx(a, &p, data, nil, gas, "gas-plan", func(*Ledger) bool { return !end })
	} else {
		m = x.cosmosTx(a, []sdk.Msg{&evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: p.Hex(), Input: hexBytes(data), Value: math.ZeroInt()}}, gas, "gas-plan-msg", func(*Ledger) bool { return !end })
	}
	if short {
		m.Expect = xFail
	}
	m.Work = uint64(work)
	sort.Strings(shape)
	m.Shape = strings.Join(shape, ",")
	return m
}

// execCosmos asks for a cosmos message.
func execCosmos(json string) Rec {
	return rec(pCall, cosmosPrecompile, nil, pack(cosmosABI, "execute_cosmos", json))
}

func (x *hrun) msgCallJSON(from, to common.Address, data []byte) string {
	return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"%s","value":"0"}`, sdk.AccAddress(from.Bytes()), to.Hex(), hexBytes(data))
}

// gasRules: gas used is within the limit and covers the work.
func (x *hrun) gasRules(txs []*TxMeta) {
	for _, m := range txs {
		x.r.Eval(1)
		if m.Res.GasWanted != int64(m.Gas) && m.Expect != xReject {
			x.bad("gas-wanted", "%s: gas wanted %d, limit %d", m.Kind, m.Res.GasWanted, m.Gas)
		}
		if m.Res.Code == 0 && m.Res.GasUsed > m.Res.GasWanted {
			x.bad("gas-over", "%s succeeded with gas used %d of %d", m.Kind, m.Res.GasUsed, m.Res.GasWanted)
		}
		if m.Work > 0 && m.Expect != xReject && m.Expect != xFail {
			x.r.Count("gas_plans", 1)
			if m.Res.GasUsed < int64(m.Work) {
				x.bad("gas-free", "%s [%s] did work for %d gas and was charged %d", m.Kind, m.Shape, m.Work, m.Res.GasUsed)
			}
		}
		if m.Work > 0 && m.Expect == xFail {
			x.r.Count("gas_plans_short", 1)
		}
		// the refund is announced
		if m.IsEth() && m.Res.Code == 0 {
			want := x.refund.MulInt64(m.Res.GasWanted - m.Res.GasUsed).TruncateInt()
			got := ""
			for _, e := range m.Res.Events {
				if e.Type == "gas_refund" {
					for _, at := range e.Attributes {
						if at.Key == "gas" {
							got = at.Value
						}
					}
				}
			}
			if want.IsPositive() && m.Fee.AmountOf(verifkit.FeeDenom).IsPositive() && got != "" && got != want.String() {
				x.bad("refund-event", "%s announced a refund of %s gas, want %s", m.Kind, got, want)
			}
		}
	}
}

// topLevelHalt: an execution that stops by an exceptional halt.
func (x *hrun) topLevelHalt() {
	a := x.eoa()
	if a == nil {
		return
	}
	p := x.puppets[0]
	n := 50_000
	m := x.ethTx(a, &p, script(rec(pLoop, n, nil, nil), rec(pInvalid, nil, nil, nil)), nil, 5_000_000, "halt", func(*Ledger) bool { return false })
	if !x.Run([]*TxMeta{m}) {
		x.bad("halt", "%v", x.c.HaltErr)
		return
	}
	x.r.Eval(1)
	if m.Res.Code == 0 {
		x.bad("outcome-halt", "an INVALID at top level succeeded")
	} else if m.Res.GasUsed < int64(n*perLoop) {
		x.bad("top-level-halt-uncharged", "an execution that ended in INVALID did work for %d gas and reports %d", n*perLoop, m.Res.GasUsed)
	}
}

// t03Payers: who pays, and what. Accounts on the fee whitelist may offer less than the minimum, and
// everyone pays what is offered, in whatever tokens, themselves or by a grant.
func t03Payers(r *R, id string, rng *rand.Rand) {
	price := []string{"0.15", "3", "0.000001"}[rng.Intn(3)]
	c := verifkit.NewChain(verifkit.Config{NAcc: 6, GasPrice: price, EVM: func(p *evmtypes.GenesisState) { p.Params.GasRefundRatio = math.LegacyZeroDec() }})
	listed := map[*verifkit.Account]bool{}
	op, err := c.App.OPChildKeeper.GetParams(c.QCtx())
	must(err)
	for _, a := range c.Accs[:5] {
		if rng.Intn(2) == 0 {
			listed[a] = true
			op.FeeWhitelist = append(op.FeeWhitelist, a.Bech())
		}
	}
	run := func(txs ...[]byte) {
		for _, t := range c.Block(txs...).TxResults {
			if t.Code != 0 {
				panic(harnessPanic{fmt.Sprintf("setup: %s", t.Log)})
			}
		}
	}
	run(adminTx(c, &opchildtypes.MsgUpdateParams{Authority: authorityAddr(), Params: &op}))
	granter := c.Accs[5]
	for _, a := range c.Accs[:5] {
		m, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, granter.Acc, a.Acc)
		must(err)
		run(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{granter}, Gas: 2_000_000, Fee: anyFee(c, 2_000_000)}))
	}
	minPrice := math.LegacyMustNewDecFromStr(price)
	other := "uusdc"
	type offer struct {
		by    *verifkit.Account
		from  sdk.AccAddress
		fee   sdk.Coins
		ok    bool
		label string
		tx    []byte
	}
	for n := r.N(4, 8); n > 0; n-- {
		var offers []offer
		var txs [][]byte
		for _, i := range rng.Perm(5)[:2+rng.Intn(4)] {
			o := offer{by: c.Accs[i], from: c.Accs[i].Acc}
			gas := uint64(1_000_000 + rng.Intn(2_000_000))
			need := minPrice.MulInt64(int64(gas)).Ceil().TruncateInt()
			add := func(d string, a math.Int) {
				if a.IsPositive() {
					o.fee = o.fee.Add(sdk.NewCoin(d, a))
				}
			}
			enough := false
			switch rng.Intn(6) {
			case 0:
				o.label = "nothing"
			case 1:
				o.label, enough = "enough", true
				add(verifkit.FeeDenom, need)
			case 2:
				o.label, enough = "more", true
				add(verifkit.FeeDenom, need.AddRaw(rng.Int63n(100_000)))
			case 3:
				o.label = "less"
				add(verifkit.FeeDenom, need.SubRaw(1))
			case 4:
				o.label = "other"
				add(other, math.NewInt(1+rng.Int63n(1000)))
			case 5:
				o.label, enough = "both", true
				add(verifkit.FeeDenom, need)
				add(other, math.NewInt(1+rng.Int63n(1000)))
			}
			o.ok = enough || listed[o.by]
			t := verifkit.CosmosTx{Msgs: make([]sdk.Msg, 1), Signers: []*verifkit.Account{o.by}, Gas: gas, Fee: o.fee}
			t.Msgs[0] = banktypes.NewMsgSend(o.by.Acc, o.by.Acc, sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 1)))
			if rng.Intn(3) == 0 {
				o.label += " by grant"
				o.from, t.Granter = granter.Acc, granter.Acc
			}
			o.tx = c.Cosmos(t)
			offers = append(offers, o)
			txs = append(txs, o.tx)
			chk, _ := c.Check(o.tx)
			r.Eval(1)
			if (chk.Code == 0) != o.ok {
				r.Violate(id, "fee-taken", "an account (listed=%v) offers %s for %d gas at %s: the mempool says %d %s", listed[o.by], o.fee, gas, price, chk.Code, chk.Log)
				return
			}
		}
		type key struct {
			a, d string
		}
		was := map[key]*big.Int{}
		want := map[key]*big.Int{}
		all := []sdk.AccAddress{authtypes.NewModuleAddress(authtypes.FeeCollectorName), granter.Acc}
		for _, a := range c.Accs[:5] {
			all = append(all, a.Acc)
		}
		for _, a := range all {
			for _, d := range []string{verifkit.FeeDenom, other} {
				was[key{string(a), d}] = c.Bal(a, d).BigInt()
				want[key{string(a), d}] = c.Bal(a, d).BigInt()
			}
		}
		res := c.Block(txs...)
		for i, o := range offers {
			r.Eval(1)
			r.Distinct(fmt.Sprintf("payers|%s|%v|%v", o.label, listed[o.by], o.ok))
			// the minimum is for the mempool: in a block everything offered is taken
			if t := res.TxResults[i]; t.Code != 0 {
				r.Violate(id, "fee-refused", "an account (listed=%v) offers %s at %s: %d %s", listed[o.by], o.fee, price, t.Code, t.Log)
				return
			}
			for _, f := range o.fee {
				w := want[key{string(o.from), f.Denom}]
				w.Sub(w, f.Amount.BigInt())
			}
		}
		for _, a := range all[1:] {
			for _, d := range []string{verifkit.FeeDenom, other} {
				if got := c.Bal(a, d).BigInt(); got.Cmp(want[key{string(a), d}]) != 0 {
					r.Violate(id, "fee-paid", "%s had %s %s, and has %s instead of %s after a block of offers %+v", sdk.AccAddress(a), was[key{string(a), d}], d, got, want[key{string(a), d}], labels3(len(offers), func(i int) string { return offers[i].label + " " + offers[i].fee.String() }))
					return
				}
			}
		}
	}
	r.Count("payers", 1)
}

func labels3(n int, f func(i int) string) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return
}
