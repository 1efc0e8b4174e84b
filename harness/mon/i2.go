package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	nfttransfertypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["I02"] = monI02 }

// holding is what an account can send away.
type holding struct {
	kind, name string // denom or class
	id         string
	n          int64
	token      common.Address
}

// give makes the account an owner of something.
func (h *hookRig) give(to common.Address) (o holding) {
	c, k := h.c, h.c.App.EVMKeeper
	u := c.Accs[1]
	if h.nft {
		if h.rng.Intn(3) == 0 { // one which came over the channel
			as := asset{denom: "nft-transfer/channel-9/cats", ids: []string{"cat"}}
			if ok, ack, err := h.relay(h.ctx, as.data(true, "far", sdk.AccAddress(to.Bytes()).String(), "")); !ok {
				panic(fmt.Sprint(ack, err))
			}
			h.seq++
			o = holding{kind: "voucher", name: ibcDenom(ports721, as.denom), id: "cat"}
		} else {
			_, addr, _, err := k.EVMCreate(h.ctx, u.Eth, append(common.FromHex(ics721_erc721.Ics721Erc721Bin), pack(erc721ABI, "", "Cats", "CAT")...), nil, nil)
			must(err)
			_, _, err = k.EVMCall(h.ctx, u.Eth, addr, pack(erc721ABI, "mint", to, big.NewInt(7), "uri 7", "7"), nil, nil)
			must(err)
			o = holding{kind: "own", name: "evm/" + addr.Hex()[2:], id: "7"}
		}
		var err error
		o.token, err = evmtypes.ContractAddressFromClassId(h.ctx, k, o.name)
		must(err)
		return o
	}
	o.n = []int64{1, 500, 12345}[h.rng.Intn(3)]
	switch h.rng.Intn(4) {
	case 0:
		o.kind, o.name = "coin", "uusdc"
	case 1:
		o.kind, o.name = "fee", verifkit.FeeDenom
	case 2:
		o.kind, o.name = "own", h.ownToken()
	case 3:
		if ok, ack, err := h.relay(h.ctx, ics20("atom", "1000000", "far", sdk.AccAddress(to.Bytes()).String(), "")); !ok {
			panic(fmt.Sprint(ack, err))
		}
		h.seq++
		o.kind, o.name = "voucher", ibcDenom(ports20, "atom")
	}
	if o.kind != "voucher" {
		must(c.App.BankKeeper.SendCoins(h.ctx, u.Acc, to.Bytes(), sdk.NewCoins(verifkit.Coin(o.name, 20000))))
	}
	var err error
	o.token, err = evmtypes.DenomToContractAddr(h.ctx, k, o.name)
	must(err)
	return o
}

// ship sends it over the channel.
func (h *hookRig) ship(ctx sdk.Context, from sdk.AccAddress, o holding, memo string) (channeltypes.Packet, error) {
	if !h.nft {
		return sendIcs20(h.c, ctx, from, verifkit.Coin(o.name, o.n), "far", memo)
	}
	m := nfttransfertypes.NewMsgTransfer(ports721.port, ports721.near, o.name, []string{o.id}, from.String(), "far", clienttypes.ZeroHeight(), uint64(ctx.BlockTime().Add(time.Hour).UnixNano()), memo)
	res, err := ibcHandle(h.c, ctx, m)
	if err != nil {
		return channeltypes.Packet{}, err
	}
	pk, ok := ibcSent(res)
	if !ok {
		return pk, fmt.Errorf("no packet")
	}
	return pk, nil
}

// settle relays what became of the packet.
func (h *hookRig) settle(ctx sdk.Context, pk channeltypes.Packet, ack []byte) (err error) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case storetypes.ErrorOutOfGas:
			err = errOutOfGas
		default:
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	if ack == nil {
		return attempt(ctx, func(ctx sdk.Context) error { return ibcTimeout(h.c, ctx, pk) })
	}
	return attempt(ctx, func(ctx sdk.Context) error { return ibcAck(h.c, ctx, pk, ack) })
}

func monI02(r *R) {
	r.Rule = "distinct = (application, sender, asset, memo, address form, what the callback does, allowed, fate, outcome)"
	r.ParCase("packet", r.N(700, 20000), func(id string, rng *rand.Rand) {
		h := newHookRig(rng)
		c := h.c

		// who sends
		sender, skind := c.Accs[2].Acc, "user"
		selfSent := rng.Intn(3) == 0
		does := []string{"nothing", "nothing", "nothing", "revert", "invalid", "loop", "inner-revert", "pay", "pay-more", "sweep", "die", "relay"}[rng.Intn(12)]
		// the address of the contract is the next one of its deployer
		spy := createAddr(c.Accs[0].Eth, c.App.AccountKeeper.GetAccount(h.ctx, c.Accs[0].Acc).GetSequence())
		owner := c.Accs[2].Eth
		if selfSent {
			sender, skind, owner = spy.Bytes(), "contract", spy
		}
		must(c.App.BankKeeper.SendCoins(h.ctx, c.Accs[1].Acc, spy.Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 500))))
		var sc []byte
		late := false // the script needs the asset
		switch does {
		case "inner-revert":
			sc = script(rec(pCallCatch, h.puppet, nil, script(rec(pSstore, 5, 5, nil), rec(pRevert, nil, nil, nil))), rec(pSstore, 6, 6, nil))
		case "pay", "pay-more":
			n := int64(5)
			if does == "pay-more" {
				n = 50_000_000
			}
			sc = script(rec(pSstore, 5, 5, nil), rec(pCall, evmtypes.CosmosPrecompileAddress, nil, execData(sendMsgJSON(spy.Bytes(), c.Accs[3].Acc, "uusdc", n))))
		case "die":
			sc = script(rec(pSelfdestruct, c.Accs[3].Eth, nil, nil))
		case "relay": // a callback which sends another packet
			m := `{"@type":"/ibc.applications.transfer.v1.MsgTransfer","source_port":"transfer","source_channel":"` + ports20.near + `","token":{"denom":"uusdc","amount":"3"},"sender":"` + sdk.AccAddress(spy.Bytes()).String() + `","receiver":"far","timeout_height":{},"timeout_timestamp":"` + fmt.Sprint(h.ctx.BlockTime().Add(48*time.Hour).UnixNano()) + `","memo":""}`
			sc = script(rec(pCall, evmtypes.CosmosPrecompileAddress, nil, execData(m)))
		case "sweep": // pass on what has come back
			late = true
		}
		o := h.give(owner) // before there is code which could mind
		if late && selfSent {
			spy2 := createAddr(c.Accs[0].Eth, c.App.AccountKeeper.GetAccount(h.ctx, c.Accs[0].Acc).GetSequence())
			if spy2 != spy {
				panic("nonce moved")
			}
			if h.nft {
				n, _ := evmtypes.TokenIdToBigInt(o.name, o.id)
				sc = script(rec(pCall, o.token, nil, pack(erc721ABI, "transferFrom", spy, c.Accs[3].Eth, n)))
			} else {
				sc = script(rec(pCall, o.token, nil, pack(erc20ABI, "transfer", c.Accs[3].Eth, big.NewInt(20000))))
			}
		}
		if got := h.deploy(spyCode(h.puppet, does, sc)); got != spy {
			panic("address")
		}

		// the contract to call back
		target, tkind := spy, "spy"
		switch rng.Intn(12) {
		case 0:
			target, tkind = c.Accs[4].Eth, "eoa"
		case 1:
			target, tkind = evmtypes.CosmosPrecompileAddress, "precompile"
		case 2:
			target, tkind = o.token, "token"
		case 3:
			target, tkind = common.BytesToAddress(crypto.Keccak256([]byte(id))), "nobody"
		}
		allowed := rng.Intn(5) > 0
		if allowed {
			allowHook(c, h.ctx, target.Bytes(), true)
		} else {
			switch rng.Intn(3) {
			case 0:
				allowHook(c, h.ctx, target.Bytes(), false)
			case 1:
				allowHook(c, h.ctx, h.puppet.Bytes(), true)
				if target != common.BytesToAddress(sender) {
					allowHook(c, h.ctx, sender, true)
				}
			}
		}
		name, form := target.Hex(), "hex"
		switch rng.Intn(7) {
		case 0:
			name, form = strings.ToLower(name), "lower"
		case 1:
			name, form = sdk.AccAddress(target.Bytes()).String(), "bech32"
		case 2:
			name, form = name[2:], "bare"
		}
		// the memo: which callbacks it may ask for (none: it must not run)
		ids := []uint64{1, 0, 42, 1<<53 + 1, 1<<63 + 12345, 1<<64 - 1}
		cb := ids[rng.Intn(len(ids))]
		want, maybe := true, false
		addrJ := `"` + name + `"`
		idJ := fmt.Sprint(cb)
		mkind := "callback"
		ac := `{"id":` + idJ + `,"contract_address":` + addrJ + `}`
		memo := ""
		wrap := func(s string) string { return `{"evm":{"async_callback":` + s + `}}` }
		switch rng.Intn(10) {
		case 0: // none
			mkind, want = "none", false
			memo = []string{"", "hello", "{", "[]", "5", `{"evm":null}`, `{"evm":{}}`, `{"evm":"x"}`, `{"evm":[` + ac + `]}`, `{"EVM":{"async_callback":` + ac + `}}`, `{"x":{"evm":{"async_callback":` + ac + `}}}`, `{"evm":{"async_callback":null}}`, `{"async_callback":` + ac + `}`,
				`{"evm":{"async_callback":` + ac + `}`, `{"evm":{"async_callback":` + ac + `}}}`, `{"evm":{"async_callback":` + ac + `}} x`, `{"evm":{"message":{"contract_addr":` + addrJ + `,"input":"0x01"}}}`, `{"move":{"async_callback":` + ac + `}}`, `{"wasm":{"async_callback":` + ac + `}}`}[rng.Intn(19)]
		case 1: // malformed
			mkind, want = "malformed", false
			memo = wrap([]string{
				`{"id":-1,"contract_address":` + addrJ + `}`,
				`{"id":18446744073709551616,"contract_address":` + addrJ + `}`,
				`{"id":1.5,"contract_address":` + addrJ + `}`,
				`{"id":"5","contract_address":` + addrJ + `}`,
				`{"id":true,"contract_address":` + addrJ + `}`,
				`{"id":7,"contract_address":5}`,
				`{"id":7,"contract_address":""}`,
				`{"id":7}`,
				`{"id":7,"contract_address":"junk"}`,
				`{"id":7,"contract_address":"0x` + name + `"}`,
				`"` + name + `"`, `7`, `[]`,
			}[rng.Intn(13)])
		case 2: // as good as told
			mkind, maybe = "lax", true
			switch rng.Intn(5) {
			case 0:
				ac, cb = `{"contract_address":`+addrJ+`}`, 0
			case 1:
				ac, cb = `{"id":null,"contract_address":`+addrJ+`}`, 0
			case 2:
				ac, cb = `{"id":1e3,"contract_address":`+addrJ+`}`, 1000
			case 3:
				ac, cb = `{"id":5.0,"contract_address":`+addrJ+`}`, 5
			case 4:
				ac = `{"ID":` + idJ + `,"Contract_Address":` + addrJ + `}`
			}
			memo = wrap(ac)
		case 3:
			mkind = "with-message"
			memo = `{"evm":{"message":{"contract_addr":"0xff","input":"0x"},"async_callback":` + ac + `}}`
		case 4:
			mkind = "with-more"
			memo = `{"evm":{"note":[1,2],"async_callback":{"x":1.5,` + ac[1:] + `},"move":{},"wasm":"x"}`
		default:
			memo = wrap(ac)
		}

		// the fate
		fate := []string{"ok", "ok", "error", "error", "timeout", "timeout", "odd"}[rng.Intn(7)]
		var ack []byte
		flags := []bool{true}
		switch fate {
		case "ok":
			ack = channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()
		case "error":
			ack = [][]byte{channeltypes.NewErrorAcknowledgement(errors.New("no")).Acknowledgement(), []byte(`{"error":"x"}`), []byte(`{"error":"ABCI code: 1: \"quoted\""}`)}[rng.Intn(3)]
			flags = []bool{false}
		case "odd":
			ack = [][]byte{[]byte(`{}`), []byte(`{"result":"AQ=="} `), []byte(`{"result":""}`), []byte(`{"error":""}`), []byte(`garbage`), []byte(`{"result":"AQ==","error":"x"}`), []byte(`{"ok":true}`), {0}}[rng.Intn(8)]
			flags = []bool{true, false}
		}

		// send it, with and without
		sctx, tctx := branch(h.ctx, 0), branch(h.ctx, 0)
		pk, err := h.ship(sctx, sender, o, memo)
		tpk, terr := h.ship(tctx, sender, o, "")
		desc := fmt.Sprintf("%s of %s %s %d by %s %s, memo %s (target %s, %s, allowed=%v), fate %s %s", h.port().port, o.name, o.id, o.n, skind, sender, memo, tkind, does, allowed, fate, ack)
		if (err == nil) != (terr == nil) {
			r.Violate(id, "send", "%s: sent %v, without the memo %v", desc, err, terr)
			return
		}
		if err != nil {
			r.Count("not_sent", 1)
			if os := fmt.Sprint(err); !strings.Contains(os, "blocked") {
				r.Sample("not sent: %s: %v", desc, err)
			}
			return
		}
		if d := verifkit.Diff(appDump(c, tctx), appDump(c, sctx)); len(d) > 0 {
			r.Violate(id, "send", "%s: sending differs from sending without the memo\n%s", desc, verifkit.DiffString(d, 12))
			return
		}
		later := func(ctx sdk.Context) sdk.Context {
			dt := time.Minute
			if fate == "timeout" {
				dt = 2 * time.Hour
			}
			return branch(ctx.WithBlockTime(ctx.BlockTime().Add(dt)).WithBlockHeight(ctx.BlockHeight()+1), hookGas)
		}
		notes0 := spyNotes(c, sctx, spy)
		bctx := later(tctx)
		berr := h.settle(bctx, tpk, ack)
		base := appDump(c, bctx)

		gctx := later(sctx)
		gerr := h.settle(gctx, pk, ack)
		after := appDump(c, gctx)
		notes := spyNotes(c, gctx, spy)
		r.Eval(1)

		// what the callback does on top
		type exp struct {
			name  string
			d     verifkit.Dump
			notes *spied
		}
		var exps []exp
		if berr == nil {
			if !want || !allowed || maybe {
				exps = append(exps, exp{"plain", base, nil})
			}
			if want && allowed {
				for _, flag := range flags {
					ctx := branch(bctx, hookGas)
					bz := make([]byte, 0, 68)
					if fate == "timeout" {
						bz = append(bz, crypto.Keccak256([]byte("ibc_timeout(uint64)"))[:4]...)
						bz = append(bz, common.BigToHash(new(big.Int).SetUint64(cb)).Bytes()...)
					} else {
						bz = append(bz, crypto.Keccak256([]byte("ibc_ack(uint64,bool)"))[:4]...)
						bz = append(bz, common.BigToHash(new(big.Int).SetUint64(cb)).Bytes()...)
						f := int64(0)
						if flag {
							f = 1
						}
						bz = append(bz, common.BigToHash(big.NewInt(f)).Bytes()...)
					}
					err := attempt(ctx, func(ctx sdk.Context) error {
						_, err := ibcHandle(c, ctx, &evmtypes.MsgCall{Sender: sender.String(), ContractAddr: target.Hex(), Input: hexBytes(bz)})
						return err
					})
					if err != nil {
						exps = append(exps, exp{"plain (the callback fails)", base, nil})
						continue
					}
					e := exp{fmt.Sprintf("plain and callback(%d, %v)", cb, flag), appDump(c, ctx), nil}
					if tkind == "spy" && does != "die" {
						e.notes = &spied{notes0.calls + 1, common.BytesToAddress(sender), new(big.Int), crypto.Keccak256Hash(bz)}
					}
					exps = append(exps, e)
				}
			}
		}

		out := "plain"
		switch {
		case gerr != nil && berr != nil:
			out = "refused"
		case gerr != nil:
			out = "failed"
		case notes.calls != notes0.calls:
			out = "called"
		}
		r.Count(fate+"_"+mkind+"_"+out, 1)
		r.Distinct(fmt.Sprintf("nft=%v|%s|%s|%s|%s|%s|%s|%v|%s|%s", h.nft, skind, o.kind, mkind, form, tkind, does, allowed, fate, out))
		r.Sample("%s -> %v %s", desc, gerr, out)

		if berr != nil { // the application itself refuses
			if gerr == nil {
				r.Violate(id, "settled", "%s: settled, although it is refused (%v) without the memo", desc, berr)
			}
			return
		}
		if gerr != nil {
			burnt := len(exps) > 0 && strings.HasSuffix(exps[len(exps)-1].name, "fails)") || does == "loop" || does == "invalid"
			if errors.Is(gerr, errOutOfGas) && want && allowed && burnt {
				// the relaying transaction has run out of gas: all of it is
				// undone, and the packet is still there to be settled
				r.Count("out_of_gas", 1)
				return
			}
			r.Violate(id, "blocked", "%s: not settled: %v", desc, gerr)
			return
		}
		for i, e := range exps {
			d := verifkit.Diff(e.d, after)
			if len(d) == 0 {
				if e.notes != nil {
					if notes.calls != e.notes.calls || notes.caller != e.notes.caller || notes.value.Sign() != 0 || notes.data != e.notes.data {
						r.Violate(id, "call", "%s: the contract saw %+v, not %+v", desc, notes, *e.notes)
					}
					r.Count("calls_seen", 1)
				}
				break
			}
			if i == len(exps)-1 {
				r.Violate(id, "outcome", "%s: state differs from %s\n%s", desc, e.name, verifkit.DiffString(d, 12))
				return
			}
		}
		if len(exps) == 0 {
			panic("no expectation")
		}

		// the packet is done: telling its fate once more does nothing
		for i, a := range [][]byte{ack, nil, channeltypes.NewErrorAcknowledgement(errors.New("again")).Acknowledgement()} {
			again := branch(gctx.WithBlockTime(gctx.BlockTime().Add(3*time.Hour)), hookGas)
			err := h.settle(again, pk, a)
			if d := verifkit.Diff(withoutIBC(after), withoutIBC(appDump(c, again))); len(d) > 0 {
				r.Violate(id, "twice", "%s: told again (%d, %v), it changed\n%s", desc, i, err, verifkit.DiffString(d, 12))
				return
			}
		}
	})
}
