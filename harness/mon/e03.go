package main

import (
	"bytes"
	"cosmossdk.io/collections"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["E03"] = monE03 }

const probeWords = 14

// tellerCode returns TLOAD(1) and then sets it.
func tellerCode() []byte {
	return verifkit.NewAsm().Push(1).Op(vm.TLOAD).Push(0).Op(vm.MSTORE).Tstore(1, 0x66).ReturnMem(0, 32).Bytes()
}

// transientProbe observes everything that must not outlive an execution, leaves storage as it was and logs what it saw.
func transientProbe(other common.Address) []byte {
	a := verifkit.NewAsm()
	n := 0
	put := func() { a.Push(32 * n).Op(vm.MSTORE); n++ }
	gas := func(f func()) {
		a.Op(vm.GAS)
		f()
		a.Op(vm.GAS, vm.SWAP1, vm.SUB)
		put()
	}
	sload := func() { a.Push(7).Op(vm.SLOAD, vm.POP) }
	gas(sload) // 0 cold
	gas(sload) // 1 warm
	ext := func() {
		a.Push(common.HexToAddress("0x7777777777777777777777777777777777777777")).Op(vm.EXTCODESIZE, vm.POP)
	}
	gas(ext) // 2 cold
	gas(ext) // 3 warm
	gas(func() { a.Push(other).Op(vm.BALANCE, vm.POP) })
	gas(func() { a.Push(other).Op(vm.BALANCE, vm.POP) })
	a.Push(1).Op(vm.TLOAD)
	put() // 6: 0
	a.Tstore(1, 0x55)
	tell := func(op vm.OpCode) {
		// return data to word 20
		a.Push(32).Push(32 * 20).Push(0).Push(0)
		if op == vm.CALL {
			a.Push(0)
		}
		a.Push(other).Push(100_000).Op(op, vm.POP).Push(32 * 20).Op(vm.MLOAD)
		put()
	}
	tell(vm.CALL)         // 7: 0
	tell(vm.CALL)         // 8: 0x66
	tell(vm.DELEGATECALL) // 9: 0x55
	a.Push(1).Op(vm.TLOAD)
	put()                              // 10: 0x66
	gas(func() { a.Sstore(7, 0xfff) }) // 11
	gas(func() { a.Sstore(7, 9) })     // 12, back to the original value
	a.Push(0).Op(vm.TLOAD)
	put() // 13: 0
	return a.Log0(0, 32*probeWords).Op(vm.STOP).Bytes()
}

// probeFacts checks one record of the probe.
func probeFacts(w []byte, al bool) string {
	if len(w) != 32*probeWords {
		return fmt.Sprintf("record of %d bytes", len(w))
	}
	g := func(i int) int64 { return word(w, i).Int64() }
	var bad []string
	eq := func(what string, got, want int64) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s %d, want %d", what, got, want))
		}
	}
	cold := int64(2000)
	if al {
		cold = 0
	}
	eq("cold minus warm storage read", g(0)-g(1), cold)
	eq("cold minus warm account", g(2)-g(3), 2500)
	cold = 2500
	if al {
		cold = 0
	}
	eq("cold minus warm other contract", g(4)-g(5), cold)
	eq("transient slot at the start", g(6), 0)
	eq("the other contract's transient slot", g(7), 0)
	eq("the other contract's transient slot in the second call", g(8), 0x66)
	eq("own transient slot through delegatecall", g(9), 0x55)
	eq("own transient slot after it", g(10), 0x66)
	eq("untouched transient slot", g(13), 0)
	eq("first write minus second write", g(11)-g(12), 2800)
	return strings.Join(bad, "; ")
}

// e03World is what both parts run on.
type e03World struct {
	probe, other common.Address
	puppets      []common.Address
}

func (w *e03World) init(seq uint64) [][]byte {
	return [][]byte{
		verifkit.Deployer(tellerCode()),
		deployer7(transientProbe(w.other)),
		verifkit.Deployer(puppetCode()), verifkit.Deployer(puppetCode()),
	}
}

func newE03World(owner common.Address, nonce uint64) *e03World {
	w := &e03World{other: createAddr(owner, nonce), probe: createAddr(owner, nonce+1)}
	w.puppets = []common.Address{createAddr(owner, nonce+2), createAddr(owner, nonce+3)}
	return w
}

// deployer7 sets slot 7 to 9.
func deployer7(rt []byte) []byte {
	pre := verifkit.NewAsm().Sstore(7, 9).Bytes()
	d := verifkit.Deployer(rt)
	off := int(d[5])<<8 | int(d[6])
	off += len(pre)
	d[5], d[6] = byte(off>>8), byte(off)
	return append(pre, d...)
}

var e03AL = func(w *e03World) coretypes.AccessList {
	return coretypes.AccessList{{Address: w.probe, StorageKeys: []common.Hash{common.BigToHash(big.NewInt(7))}}, {Address: w.other}}
}

// neutral is a random script of a puppet that leaves storage as it was.
func neutral(rng *rand.Rand, w *e03World, depth int) []byte {
	var rs []Rec
	n := 1 + rng.Intn(6)
	for i := 0; i < n; i++ {
		switch rng.Intn(12) {
		case 0:
			k := rng.Intn(4)
			rs = append(rs, rec(pTstore, k, 1+rng.Intn(9), nil))
		case 1:
			k := 10 + rng.Intn(4)
			rs = append(rs, rec(pSstore, k, 5, nil), rec(pSstore, k, 9, nil))
		case 2:
			rs = append(rs, rec(pLog, rng.Intn(5), 77, []byte("x")))
		case 3:
			rs = append(rs, rec(pSloadLog, rng.Intn(15), nil, nil))
		case 4:
			rs = append(rs, rec(pTloadLog, rng.Intn(4), nil, nil))
		case 5, 6:
			rs = append(rs, rec(pCallCatch, w.probe, nil, nil))
		case 7:
			rs = append(rs, rec([]int{pDelegate, pCallcode}[rng.Intn(2)], w.other, nil, nil))
		case 8, 9:
			if depth < 3 {
				op := []int{pCallCatch, pCall, pDelegate, pStatic, pCallcode}[rng.Intn(5)]
				rs = append(rs, rec(op, w.puppets[rng.Intn(2)], nil, neutral(rng, w, depth+1)))
			}
		case 10:
			// a frame that creates and fails
			if depth < 3 {
				sub := []Rec{rec(pCreateCatch, nil, nil, verifkit.Deployer([]byte{0})), rec(pCallCatch, w.probe, nil, nil), rec(pRevert, nil, nil, nil)}
				rs = append(rs, rec(pCallCatch, w.puppets[rng.Intn(2)], nil, script(sub...)))
			}
		case 11:
			if depth > 0 && rng.Intn(2) == 0 {
				rs = append(rs, rec([]int{pRevert, pInvalid}[rng.Intn(2)], nil, nil, nil))
			}
		}
	}
	return script(rs...)
}

func monE03(r *R) {
	r.Rule = "distinct = pairs of (what ran before, what was observed after it) on scratch states, and (entry path, position in transaction and block) of the probe in real blocks"
	r.ParCase("twin", r.N(600, 20000), func(id string, rng *rand.Rand) { e03Twin(r, id, rng) })
	r.ParCase("trees", r.N(120, 4000), func(id string, rng *rand.Rand) { e03Trees(r, id, rng) })
	r.ParCase("blocks", r.N(24, 600), func(id string, rng *rand.Rand) { e03Blocks(r, id, rng) })
}

// e03Twin compares an execution with the same one after others that leave no persistent trace.
func e03Twin(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	k := c.App.EVMKeeper
	w := newE03World(c.Accs[0].Eth, nonceMap(c, ctx)[c.Accs[0].Eth])
	for _, d := range w.init(0) {
		_, _, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, d, nil, nil)
		must(err)
	}
	for _, p := range w.puppets {
		_, _, err := k.EVMCall(ctx, c.Accs[0].Eth, p, script(rec(pSstore, 10, 9, nil), rec(pSstore, 11, 9, nil), rec(pSstore, 12, 9, nil), rec(pSstore, 13, 9, nil)), nil, nil)
		must(err)
	}
	mk := func(from common.Address) (evmTx, string) {
		t := evmTx{kind: 2, from: from, to: w.puppets[rng.Intn(2)], data: neutral(rng, w, 0), gas: uint64(3_000_000)}
		what := "puppet"
		switch rng.Intn(8) {
		case 0, 1:
			t.to, t.data, what = w.probe, nil, "probe"
		case 2:
			t.kind, what = 3, "static"
		case 3:
			t.data = append(t.data, rec(pRevert, nil, nil, nil).enc()...)
			what = "revert"
		case 4:
			t.gas = uint64(40_000 + rng.Intn(150_000))
			what = "tight"
		case 5:
			t.kind = 0
			t.data = verifkit.NewAsm().Tstore(1, 3).Call(vm.CALL, w.probe, 0, 0, 0, nil).RevertMem(0, 0).Bytes()
			what = "create-revert"
		}
		if rng.Intn(4) == 0 {
			t.al = e03AL(w)
			what += "+al"
		}
		return t, what
	}
	xt, xw := mk(c.Accs[1].Eth)
	if xt.kind == 0 {
		xt.kind, xt.to, xt.data, xw = 2, w.probe, nil, "probe"
	}
	var ys []string
	d0 := c.DumpCtx(ctx)
	alone := runEVM(c, ctx, xt, false, false, nil)
	again := runEVM(c, ctx, xt, false, false, nil)
	same := func(what string, a, b *execOut) {
		r.Eval(1)
		if x, y := e03Sum(c, a), e03Sum(c, b); x != y {
			r.Violate(id, what, "%s %s: alone\n%s\nthen\n%s", xw, what, x, y)
		}
	}
	same("repeated", &alone, &again)
	// what ran before changes nothing persistent
	n := 1 + rng.Intn(4)
	for i := 0; i < n; i++ {
		yt, yw := mk(c.Accs[3].Eth)
		yt.al = append(yt.al, e03AL(w)...)
		runEVM(c, ctx, yt, false, true, nil)
		ys = append(ys, yw)
	}
	d1 := c.DumpCtx(ctx)
	for _, e := range verifkit.Diff(d0, d1) {
		if e.Store == "acc" && strings.Contains(e.Key, string(c.Accs[3].Acc)) {
			continue
		}
		r.Violate(id, "harness-neutral", "a neutral execution (%v) changed %s", ys, e)
		return
	}
	after := runEVM(c, ctx, xt, false, false, nil)
	same("after-others", &alone, &after)
	// and after its own committed run, as far as it is neutral itself
	runEVM(c, ctx, xt, false, true, nil)
	after = runEVM(c, ctx, xt, false, false, nil)
	same("after-itself", &alone, &after)
	out := "ok"
	if alone.err != nil {
		out = "fail"
	}
	r.Count("twins_"+out, 1)
	r.Distinct(xw + "|" + out + "|" + strings.Join(ys, ","))
	// the probe's own word
	pt := evmTx{kind: 2, from: c.Accs[1].Eth, to: w.probe, gas: 1_000_000}
	if rng.Intn(2) == 0 {
		pt.al = e03AL(w)
	}
	p := runEVM(c, ctx, pt, false, false, nil)
	if p.err != nil || len(p.logs) != 1 {
		r.Violate(id, "probe", "probe: %v %v", p.err, p.logs)
		return
	}
	r.Eval(1)
	if s := probeFacts(common.FromHex(p.logs[0].Data), pt.al != nil); s != "" {
		r.Violate(id, "probe", "after %v: %s", ys, s)
	}
	r.Sample("%s: %s %s the same alone, repeated and after %v", id, xw, out, ys)
}

func e03Sum(c *verifkit.Chain, o *execOut) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "err=%v ret=%x gas=%v\n", o.err, o.ret, o.charged)
	sb.WriteString(logString(o))
	if o.err == nil {
		fmt.Fprintf(&sb, "%d events\n", len(o.events))
	}
	return sb.String()
}

// e03Trees runs a call tree alone and after another that failed.
func e03Trees(r *R, id string, rng *rand.Rand) {
	c := base()
	ctx := c.Scratch(0)
	x := newTree(rng, c, ctx, false)
	if x.deploy(c, ctx) != nil {
		return
	}
	y := newTree(rng, c, ctx, false)
	if y.root.fails = true; y.root.end == "ok" {
		y.root.end = "revert"
	}
	if y.deploy(c, ctx) != nil {
		return
	}
	// the failing tree calls the other's contracts too
	alone := runTree(c, ctx, x, new(big.Int))
	runTreeDirect(c, ctx, y)
	// the first tree itself, its effects thrown away by the caller
	tmp, _ := ctx.CacheContext()
	runTreeDirect(c, tmp, x)
	after := runTree(c, ctx, x, new(big.Int))
	r.Eval(1)
	if a, b := e03Sum(c, &alone), e03Sum(c, &after); a != b {
		r.Violate(id, "tree-after-failure", "alone\n%s\nafter a failing execution\n%s\n%s", a, b, x)
	}
	if alone.err == nil && after.err == nil {
		if d := verifkit.Diff(c.DumpCtx(alone.ctx), c.DumpCtx(after.ctx)); len(d) > 0 {
			r.Violate(id, "tree-state", "after a failing execution the state differs\n%s", verifkit.DiffString(d, 8))
		}
	}
	r.Count("trees", 1)
	r.Distinct("tree|" + x.shape())
}

// eventLogs are the EVM logs in the events of a transaction, nested executions included.
func eventLogs(ev []abci.Event) []evmtypes.Log {
	var out []evmtypes.Log
	for _, e := range ev {
		if e.Type != evmtypes.EventTypeEVM {
			continue
		}
		for _, at := range e.Attributes {
			if at.Key == evmtypes.AttributeKeyLog {
				var l evmtypes.Log
				if json.Unmarshal([]byte(at.Value), &l) == nil {
					out = append(out, l)
				}
			}
		}
	}
	return out
}

// bombCode destroys itself for the address in its calldata.
func bombCode() []byte {
	return verifkit.NewAsm().Push(0).Op(vm.CALLDATALOAD, vm.SELFDESTRUCT).Bytes()
}

func e03Blocks(r *R, id string, rng *rand.Rand) {
	c := verifkit.NewChain(verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 1+rng.Intn(90000)), NAcc: 4})
	own := c.Accs[0]
	w := newE03World(own.Eth, c.Seq(own.Acc))
	for _, d := range w.init(0) {
		deployEth(c, own, d)
	}
	p := w.puppets[0]
	mcall := func(self, to common.Address, data []byte) Rec {
		js := fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"%s","value":"0"}`, sdk.AccAddress(self.Bytes()), to.Hex(), hexBytes(data))
		return rec(pCall, cosmosPrecompile, nil, pack(cosmosABI, "execute_cosmos", js))
	}
	bombs := 0
	for b := 0; b < 6; b++ {
		var txs [][]byte
		type want struct {
			what  string
			logs  []bool // one per record of the probe: with an access list
			fail  bool
			after func(res *abci.ExecTxResult)
		}
		var wants []want
		seqs := map[*verifkit.Account]uint64{}
		seq := func(a *verifkit.Account) uint64 {
			if _, ok := seqs[a]; !ok {
				seqs[a] = c.Seq(a.Acc)
			}
			seqs[a]++
			return seqs[a] - 1
		}
		add := func(bz []byte, wt want) { txs = append(txs, bz); wants = append(wants, wt) }
		for i := 0; i < 8; i++ {
			a := c.Accs[rng.Intn(3)]
			msg := func(to common.Address, data []byte, al bool) sdk.Msg {
				m := &evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: to.Hex(), Input: hexBytes(data), Value: math.ZeroInt()}
				if al {
					m.AccessList = evmtypes.ConvertEthAccessListToCosmos(e03AL(w))
				}
				return m
			}
			cos := func(msgs ...sdk.Msg) []byte {
				n := seq(a)
				seqs[a] += uint64(len(msgs) - 1) // every further call takes a nonce
				return c.Cosmos(verifkit.CosmosTx{Msgs: msgs, Signers: []*verifkit.Account{a}, Seqs: []uint64{n}, Gas: 30_000_000})
			}
			switch k := rng.Intn(9); k {
			case 0, 1: // ethereum transaction
				al := rng.Intn(2) == 0
				t := verifkit.EthTx{Type: 2, Nonce: seq(a), To: &w.probe, Gas: 2_000_000}
				if al {
					t.AL = e03AL(w)
				}
				add(c.Eth(a, t), want{what: "eth", logs: []bool{al}})
			case 2: // several messages
				n := 2 + rng.Intn(3)
				wt := want{what: fmt.Sprintf("multi-%d", n)}
				var ms []sdk.Msg
				for j := 0; j < n; j++ {
					if rng.Intn(2) == 0 { // something in between
						ms = append(ms, msg(w.puppets[1], script(rec(pTstore, 1, 5, nil), rec(pSloadLog, 7, nil, nil), rec(pDelegate, w.other, nil, nil)), true))
						wt.what += "+"
					}
					al := rng.Intn(3) == 0
					ms = append(ms, msg(w.probe, nil, al))
					wt.logs = append(wt.logs, al)
				}
				add(cos(ms...), wt)
			case 3: // from a contract, by messages after it
				// the contract uses the probe itself first, then asks for calls
				n := 1 + rng.Intn(3)
				rs := []Rec{rec(pCall, w.probe, nil, nil)}
				wt := want{what: fmt.Sprintf("dispatched-%d", n), logs: []bool{false}}
				for j := 0; j < n; j++ {
					rs = append(rs, mcall(p, w.probe, nil))
					wt.logs = append(wt.logs, false)
				}
				// a message which asks for a message
				if rng.Intn(2) == 0 {
					rs = append(rs, mcall(p, w.puppets[1], script(mcall(w.puppets[1], w.probe, nil), rec(pCall, w.probe, nil, nil))))
					wt.what += "-nested"
					wt.logs = append(wt.logs, false, false)
				}
				add(cos(msg(p, script(rs...), false)), wt)
			case 4: // fails after having used everything
				t := verifkit.EthTx{Type: 2, Nonce: seq(a), To: &p, Data: script(rec(pCall, w.probe, nil, nil), rec(pTstore, 1, 3, nil), rec([]int{pRevert, pInvalid}[rng.Intn(2)], nil, nil, nil)), Gas: 2_000_000, AL: e03AL(w)}
				add(c.Eth(a, t), want{what: "failing", fail: true})
			case 5: // runs out of gas on the way
				t := verifkit.EthTx{Type: 2, Nonce: seq(a), To: &p, Data: script(rec(pTstore, 1, 3, nil), rec(pCall, w.probe, nil, nil), rec(pLoop, 1<<40, nil, nil)), Gas: uint64(200_000 + rng.Intn(200_000)), AL: e03AL(w)}
				add(c.Eth(a, t), want{what: "gas", fail: true})
			case 6: // created here, destroyed later, in another execution
				bombs++
				heir := common.BytesToAddress(crypto20(id, bombs))
				hb := common.LeftPadBytes(heir.Bytes(), 32)
				how := rng.Intn(3)
				var addr common.Address
				check := func(gone bool, what string) func(*abci.ExecTxResult) {
					return func(*abci.ExecTxResult) {
						n := codeLen(c, addr)
						r.Eval(1)
						r.Count("bombs_"+what, 1)
						if (n == 0) != gone {
							r.Violate(id, "bomb", "%s: code of %d bytes at %s", what, n, addr)
						}
						if gone { // nothing of it remains
							must(c.App.EVMKeeper.VMStore.Walk(c.Scratch(0), new(collections.Range[[]byte]).Prefix(addr.Bytes()), func(k, v []byte) (bool, error) {
								r.Violate(id, "bomb-residue", "%s: %s still has %x = %x", what, addr, k[20:], v)
								return true, nil
							}))
							r.Count("bombs_gone_without_residue", 1)
						}
					}
				}
				switch how {
				case 0: // two messages of one transaction
					s := seq(a)
					addr = createAddr(a.Eth, s)
					seqs[a]++
					ms := []sdk.Msg{&evmtypes.MsgCreate{Sender: a.Bech(), Code: hexBytes(verifkit.Deployer(bombCode())), Value: math.ZeroInt()}, msg(addr, hb, false)}
					bz := c.Cosmos(verifkit.CosmosTx{Msgs: ms, Signers: []*verifkit.Account{a}, Seqs: []uint64{s}, Gas: 30_000_000})
					add(bz, want{what: "bomb-messages", after: check(false, "messages")})
				case 1: // two transactions
					s := seq(a)
					addr = createAddr(a.Eth, s)
					add(c.Eth(a, verifkit.EthTx{Type: 2, Nonce: s, Data: verifkit.Deployer(bombCode()), Gas: 3_000_000}), want{what: "bomb-create"})
					add(c.Eth(a, verifkit.EthTx{Type: 2, Nonce: seq(a), To: &addr, Data: hb, Gas: 3_000_000}), want{what: "bomb-tx", after: check(false, "transactions")})
				case 2: // by a contract: at once, or by a message after it
					salt := 1000 + bombs
					init := verifkit.Deployer(bombCode())
					addr = create2Addr(p, salt, init)
					at := rng.Intn(2) == 0
					rs := []Rec{rec(pCreate2, salt, nil, init)}
					if at {
						rs = append(rs, rec(pCall, addr, nil, hb))
					} else {
						rs = append(rs, mcall(p, addr, hb))
					}
					add(cos(msg(p, script(rs...), false)), want{what: "bomb-contract", after: check(at, fmt.Sprintf("contract-%v", at))})
				}
			case 7: // a creation whose constructor uses the probe
				add(c.Eth(a, verifkit.EthTx{Type: 2, Nonce: seq(a), Gas: 3_000_000,
					Data: verifkit.NewAsm().Tstore(1, 3).Call(vm.CALL, w.probe, 0, 0, 0, nil).ReturnMem(0, 0).Bytes()}), want{what: "constructor", logs: []bool{false}})
			case 8: // refunds of one execution are not another's
				// clears a slot of the puppet (refund), then the probe in another message
				add(cos(msg(w.puppets[1], script(rec(pSstore, 50, 1, nil)), false), msg(w.puppets[1], script(rec(pSstore, 50, 0, nil)), false), msg(w.probe, nil, false)), want{what: "refund", logs: []bool{false}})
			}
		}
		res := c.Block(txs...)
		if res == nil {
			r.Violate(id, "halt", "%v", c.HaltErr)
			return
		}
		for i, wt := range wants {
			t := res.TxResults[i]
			r.Distinct(fmt.Sprintf("block|%s|%d", wt.what, min(i, 3)))
			r.Count("tx_"+strings.Split(wt.what, "-")[0], 1)
			if (t.Code != 0) != wt.fail {
				r.Violate(id, "outcome", "%s gets code %d %s", wt.what, t.Code, t.Log)
				continue
			}
			if t.Code != 0 {
				continue
			}
			var recs [][]byte
			for _, l := range eventLogs(t.Events) {
				if bytes.Equal(common.HexToAddress(l.Address).Bytes(), w.probe.Bytes()) {
					recs = append(recs, common.FromHex(l.Data))
				}
			}
			if len(recs) != len(wt.logs) {
				r.Violate(id, "records", "%s: %d records, want %d", wt.what, len(recs), len(wt.logs))
				continue
			}
			for j := range recs {
				r.Eval(1)
				if s := probeFacts(recs[j], wt.logs[j]); s != "" {
					r.Violate(id, "probe-in-block", "%s, record %d of transaction %d: %s", wt.what, j, i, s)
				}
				r.Count("probe_records", 1)
			}
			if wt.after != nil {
				wt.after(t)
			}
		}
	}
	r.Sample("%s: six blocks of eight executions observed by the probe", id)
}

func crypto20(id string, n int) []byte {
	return ethcrypto.Keccak256([]byte(fmt.Sprintf("%s/%d", id, n)))[:20]
}

func create2Addr(from common.Address, salt int, init []byte) common.Address {
	return ethcrypto.CreateAddress2(from, common.BigToHash(big.NewInt(int64(salt))), ethcrypto.Keccak256(init))
}

// codeLen is the size of the code at addr.
func codeLen(c *verifkit.Chain, addr common.Address) int {
	ctx := c.Scratch(0)
	_, evm, err := c.App.EVMKeeper.CreateEVM(ctx, common.Address{}, nil)
	must(err)
	return evm.StateDB.GetCodeSize(addr)
}
