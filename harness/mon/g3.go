package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	upgradetypes "cosmossdk.io/x/upgrade/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_wrapper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// G02: the upgrade of a running chain. A chain with a history is made into one of the version before
// (no wrapper, other parameters), goes on, and is upgraded by the plan the new version knows.

func init() { monitors["G02"] = monG02 }

const upgradePlan = "0.5.7"

func monG02(r *R) {
	r.Rule = "distinct = (before or after the upgrade, kind, outcome and shape of a transaction), and (what came before the upgrade)"
	r.hists("upgrade", 10, 250, &watch{blocks: 5, per: 10, start: func(x *hrun) {
		x.blockKeys()
		x.state["l"] = newLoops(x)
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta { return x.state["l"].(*loops).before(txs) }, block: func(x *hrun, txs []*TxMeta) { x.state["l"].(*loops).block(txs) }, end: g02End})
}

// asBefore edits an exported state into one of the version before: without the wrapper.
func asBefore(state []byte, wrapper common.Address, refund string, retain uint64) []byte {
	obj := func(bz json.RawMessage) map[string]json.RawMessage {
		m := map[string]json.RawMessage{}
		must(json.Unmarshal(bz, &m))
		return m
	}
	js := func(v any) json.RawMessage { bz, err := json.Marshal(v); must(err); return bz }
	all := obj(state)
	evm := obj(all["evm"])
	evm["erc20_wrapper"] = js([]byte{})
	ps := obj(evm["params"])
	ps["gas_refund_ratio"], ps["num_retain_block_hashes"] = js(refund), js(fmt.Sprint(retain))
	evm["params"] = js(ps)
	var kvs, kept []struct {
		Key   []byte `json:"key"`
		Value []byte `json:"value"`
	}
	must(json.Unmarshal(evm["key_values"], &kvs))
	for _, kv := range kvs {
		if !bytes.Contains(kv.Key, wrapper.Bytes()) {
			kept = append(kept, kv)
		}
	}
	if len(kept) == len(kvs) {
		panic("the wrapper left no records")
	}
	evm["key_values"] = js(kept)
	all["evm"] = js(evm)
	auth := obj(all["auth"])
	var accs, rest []json.RawMessage
	must(json.Unmarshal(auth["accounts"], &accs))
	for _, a := range accs {
		if !strings.Contains(string(a), sdk.AccAddress(wrapper.Bytes()).String()) {
			rest = append(rest, a)
		}
	}
	if len(rest) != len(accs)-1 {
		panic("the wrapper has no account")
	}
	auth["accounts"] = js(rest)
	all["auth"] = js(auth)
	return js(all)
}

func g02End(x *hrun) {
	r, old := x.r, x.c
	for i := 0; !topKept(x.c); i++ {
		a := x.users[i%len(x.users)]
		if i > 20 || !x.step([]*TxMeta{x.bankSend(a, x.freshAddr().Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 1)))}) {
			return
		}
	}
	wrapper, err := old.App.EVMKeeper.GetERC20WrapperAddr(old.QCtx())
	must(err)
	code := codeAt(old, old.QCtx(), wrapper)
	refund, retain := []string{"0.000000000000000000", "0.300000000000000000", "1.000000000000000000"}[x.rng.Intn(3)], []uint64{0, 1, 256, 300}[x.rng.Intn(4)]
	edit := func(cfg *verifkit.Config) { cfg.RawGenesis = asBefore(cfg.RawGenesis, wrapper, refund, retain) }
	n, _, err := exported(old, edit)
	if err != nil {
		x.bad("export", "%v", err)
		return
	}
	twin, _, err := exported(old, edit)
	must(err)
	x.c = n
	n.Block()
	if n.HaltErr != nil {
		x.bad("halt", "%v", n.HaltErr)
		return
	}
	twin.Replay(n.Blocks[len(n.Blocks)-1])
	l := x.state["l"].(*loops)
	follow := func() bool {
		b := n.Blocks[len(n.Blocks)-1]
		r.Eval(1)
		if res := twin.Replay(b); res == nil || !bytes.Equal(res.AppHash, b.Res.AppHash) {
			x.bad("nodes", "another node makes something else of block %d: %v", n.Height, twin.HaltErr)
			return false
		}
		return true
	}
	for k := 1 + x.rng.Intn(2); k > 0; k-- {
		txs := l.before(x.GenBlock(8))
		if !x.step(txs) || !follow() {
			return
		}
	}
	first := ""
	if x.rng.Intn(2) == 0 { // somebody gave the wrapper-to-be something before
		a := x.users[x.rng.Intn(len(x.users))]
		if !x.step([]*TxMeta{x.bankSend(a, wrapper.Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 1)))}) || !follow() {
			return
		}
		first = "paid"
	}
	admin := x.adminTx(&upgradetypes.MsgSoftwareUpgrade{Authority: authorityAddr(), Plan: upgradetypes.Plan{Name: upgradePlan, Height: n.Height + 2}})
	if !x.step([]*TxMeta{admin}) || !follow() {
		return
	}
	if admin.Res.Code != 0 {
		x.bad("plan", "the plan is refused: %s", admin.Res.Log)
		return
	}
	prev, err := n.App.EVMKeeper.Params.Get(n.QCtx())
	must(err)
	before := n.Dump()
	var txs []*TxMeta
	full := x.rng.Intn(2) == 0
	if full {
		txs = l.before(x.GenBlock(8))
	}
	if !x.step(txs) || !follow() {
		return
	}
	r.Distinct(fmt.Sprintf("upgrade|%s|%s|%d|full %v", first, refund, retain, full))
	r.Count("upgrades", 1)
	ctx := n.QCtx()
	now, err := n.App.EVMKeeper.Params.Get(ctx)
	must(err)
	want := prev
	want.GasRefundRatio, want.NumRetainBlockHashes = evmtypes.DefaultParams().GasRefundRatio, 0
	if now.String() != want.String() && !full {
		x.bad("params", "after the upgrade the parameters are %s instead of %s", now, want)
	}
	at, err := n.App.EVMKeeper.GetERC20WrapperAddr(ctx)
	if err != nil || at != wrapper || codeAt(n, ctx, at) != code {
		x.bad("wrapper", "after the upgrade the wrapper is at %s (%v) with %d bytes of code, on a new chain at %s with %d", at, err, codeAt(n, ctx, at), wrapper, code)
		return
	}
	wabi, err := erc20_wrapper.Erc20WrapperMetaData.GetAbi()
	must(err)
	f, err := n.App.EVMKeeper.GetERC20FactoryAddr(ctx)
	must(err)
	if out := view(ctx, n, wrapper, wabi, "factory"); out == nil || out[0].(common.Address) != f {
		x.bad("wrapper", "the wrapper's factory is %v instead of %s", out, f)
	}
	if done, err := n.App.UpgradeKeeper.GetDoneHeight(ctx, upgradePlan); err != nil || done != n.Height {
		x.bad("done", "the upgrade is told to have been done at %d: %v", done, err)
	}
	if !full {
		paramsKey := string(evmtypes.ParamsKey)
		for _, e := range x.withoutBlockKeys(verifkit.Diff(before, n.Dump())) {
			switch {
			case e.Store == "upgrade":
			case strings.Contains(e.Key, string(wrapper.Bytes())):
			case e.Store == "evm" && (e.Key == paramsKey || e.Key == string(evmtypes.ERC20WrapperAddrKey)):
			case e.Store == "acc" && (len(e.Key) < 20 || strings.Contains(e.Key, string(evmtypes.StdAddress.Bytes()))):
			case e.Store == "acc" && !e.HadOld: // the index of the new account's number
			default:
				x.bad("changes", "the upgrade changed %s", e)
			}
		}
	}
	for k := 2; k > 0; k-- {
		txs := l.before(x.GenBlock(10))
		if !x.step(txs) || !follow() {
			return
		}
		for _, m := range txs {
			r.Distinct("after|" + m.class())
		}
	}
}
