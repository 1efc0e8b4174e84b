package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	nfttransfertypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["I01"] = monI01 }

// spyCode notes who called it (slots: calls, caller, value, hash of the
// calldata) and then carries out a script.
func spyCode(puppet common.Address, kind string, script []byte) []byte {
	a := verifkit.NewAsm()
	a.Push(0).Op(vm.SLOAD).Push(1).Op(vm.ADD).Push(0).Op(vm.SSTORE)
	a.Op(vm.CALLER).Push(1).Op(vm.SSTORE)
	a.Op(vm.CALLVALUE).Push(2).Op(vm.SSTORE)
	a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CALLDATACOPY)
	a.Op(vm.CALLDATASIZE).Push(0).Op(vm.KECCAK256).Push(3).Op(vm.SSTORE)
	switch kind {
	case "revert":
		a.RevertMem(0, 0)
	case "invalid":
		a.Op(vm.INVALID)
	case "loop":
		a.Label("l").PushLabel("l").Op(vm.JUMP)
	}
	if len(script) > 0 {
		// code ends with the script
		a.Push(len(script)).Op(vm.DUP1, vm.CODESIZE, vm.SUB).Push(0).Op(vm.CODECOPY)
		a.Push(0).Push(0).Push(len(script)).Push(0).Push(puppet).Op(vm.GAS, vm.DELEGATECALL)
		a.PushLabel("ok").Op(vm.JUMPI).RevertMem(0, 0).Label("ok")
	}
	a.Op(vm.STOP)
	return append(a.Bytes(), script...)
}

// spied reads what a spy noted.
type spied struct {
	calls  int64
	caller common.Address
	value  *big.Int
	data   common.Hash
}

func spyNotes(c *verifkit.Chain, ctx sdk.Context, a common.Address) spied {
	var w [4]common.Hash
	for i := range w {
		res, err := evmkeeper.NewQueryServer(c.App.EVMKeeper).State(branch(ctx, 0), &evmtypes.QueryStateRequest{ContractAddr: a.Hex(), Key: fmt.Sprintf("0x%064x", i)})
		must(err)
		w[i] = common.HexToHash(res.Value)
	}
	return spied{w[0].Big().Int64(), common.BytesToAddress(w[1].Bytes()), w[2].Big(), w[3]}
}

// hookSender is the documented address of a remote sender.
func hookSender(channel, sender string) sdk.AccAddress {
	t := sha256.Sum256([]byte("ibc-evm-hook-intermediary"))
	h := sha256.Sum256(append(t[:], channel+"/"+sender...))
	return h[:]
}

// appDump is everything but the counterparty's commitments.
func appDump(c *verifkit.Chain, ctx sdk.Context) verifkit.Dump {
	d := c.DumpCtx(ctx)
	for k := range d["ibc"] {
		if strings.HasPrefix(k, "commitments/") {
			delete(d["ibc"], k)
		}
	}
	return d
}

// withoutIBC leaves out what the IBC core notes about packets.
func withoutIBC(d verifkit.Dump) verifkit.Dump {
	o := verifkit.Dump{}
	for k, v := range d {
		if k != "ibc" {
			o[k] = v
		}
	}
	return o
}

type hookRig struct {
	c      *verifkit.Chain
	ctx    sdk.Context
	rng    *rand.Rand
	puppet common.Address
	nft    bool
	seq    uint64
}

func newHookRig(rng *rand.Rand) *hookRig {
	c := ibcBase()
	h := &hookRig{c: c, ctx: c.Scratch(0), rng: rng, nft: rng.Intn(3) == 0, seq: 1}
	h.puppet = h.deploy(puppetCode())
	return h
}

func (h *hookRig) deploy(code []byte) common.Address {
	_, addr, _, err := h.c.App.EVMKeeper.EVMCreate(h.ctx, h.c.Accs[0].Eth, verifkit.Deployer(code), nil, nil)
	must(err)
	return addr
}

func (h *hookRig) port() ibcPort {
	if h.nft {
		return ports721
	}
	return ports20
}

func branch(ctx sdk.Context, gas uint64) sdk.Context {
	cc, _ := ctx.CacheContext()
	if gas > 0 {
		cc = cc.WithGasMeter(storetypes.NewGasMeter(gas))
	}
	return cc.WithEventManager(sdk.NewEventManager())
}

// asset is what a packet brings.
type asset struct {
	kind   string
	denom  string // or class, as the packet says
	amount string
	ids    []string
	local  string // what it is here
}

// data of the packet which brings it.
func (a asset) data(nft bool, from, to, memo string) []byte {
	if !nft {
		return ics20(a.denom, a.amount, from, to, memo)
	}
	uris, datas := make([]string, len(a.ids)), make([]string, len(a.ids))
	for i := range a.ids {
		uris[i] = "uri of " + a.ids[i]
	}
	return nfttransfertypes.NewNonFungibleTokenPacketData(a.denom, "a class", "", a.ids, uris, datas, from, to, memo).GetBytes(ports721.port)
}

func ibcDenom(p ibcPort, path string) string {
	s := sha256.Sum256([]byte(p.port + "/" + p.near + "/" + path))
	return fmt.Sprintf("ibc/%X", s[:])
}

func (h *hookRig) someAsset() asset {
	rng := h.rng
	amounts := []string{"1", "100", "7777777", "0", "-5", "abc", "", "1e3", " 5", "+5", "05", "115792089237316195423570985008687907853269984665640564039457584007913129639935", "115792089237316195423570985008687907853269984665640564039457584007913129639936"}
	am := amounts[rng.Intn(3)]
	if rng.Intn(6) == 0 {
		am = amounts[rng.Intn(len(amounts))]
	}
	if h.nft {
		a := asset{kind: "foreign", denom: []string{"collection", "0x1234", "a/b/c", "nft-transfer/channel-9/cats"}[rng.Intn(4)]}
		for i := 0; i < 1+rng.Intn(3); i++ {
			a.ids = append(a.ids, []string{"1", "2", "cat", "a b", "-1", "007"}[rng.Intn(6)])
		}
		a.local = ibcDenom(ports721, a.denom)
		if rng.Intn(3) == 0 { // a token of ours comes home
			a = h.homeNFT()
		}
		return a
	}
	switch rng.Intn(4) {
	case 0: // comes home
		if rng.Intn(2) == 0 { // what came here over other channels was sent on over this one
			tr := transfertypes.DenomTrace{Path: []string{"transfer/channel-91", "transfer/channel-91/transfer/channel-4", "transfer/channel-9/other-port/channel-0/transfer/channel-12"}[rng.Intn(3)], BaseDenom: "uatom"}
			h.c.App.TransferKeeper.SetDenomTrace(h.ctx, tr)
			coins := sdk.NewCoins(verifkit.Coin(tr.IBCDenom(), 1_000_000_000))
			must(h.c.App.BankKeeper.MintCoins(h.ctx, transfertypes.ModuleName, coins))
			must(h.c.App.BankKeeper.SendCoinsFromModuleToAccount(h.ctx, transfertypes.ModuleName, transfertypes.GetEscrowAddress(ports20.port, ports20.near), coins))
			h.c.App.TransferKeeper.SetTotalEscrowForDenom(h.ctx, coins[0])
			return asset{kind: fmt.Sprintf("home-%d-hops", strings.Count(tr.Path, "/")/2+1), denom: ports20.port + "/" + ports20.far + "/" + tr.Path + "/uatom", amount: am, local: tr.IBCDenom()}
		}
		d := []string{"uusdc", verifkit.FeeDenom, h.ownToken()}[rng.Intn(3)]
		esc := transfertypes.GetEscrowAddress(ports20.port, ports20.near)
		n := []int64{0, 50, 1_000_000_000}[rng.Intn(3)]
		if n > 0 {
			must(h.c.App.BankKeeper.SendCoins(h.ctx, h.c.Accs[1].Acc, esc, sdk.NewCoins(verifkit.Coin(d, n))))
			h.c.App.TransferKeeper.SetTotalEscrowForDenom(h.ctx, verifkit.Coin(d, n))
		}
		return asset{kind: "home", denom: ports20.port + "/" + ports20.far + "/" + d, amount: am, local: d}
	case 1:
		d := "transfer/channel-77/atom"
		return asset{kind: "far", denom: d, amount: am, local: ibcDenom(ports20, d)}
	case 2: // a denomination which is another's name here
		d := []string{"uusdc", verifkit.FeeDenom, "evm/" + h.puppet.Hex()[2:]}[rng.Intn(3)]
		return asset{kind: "namesake", denom: d, amount: am, local: ibcDenom(ports20, d)}
	}
	return asset{kind: "foreign", denom: "atom", amount: am, local: ibcDenom(ports20, "atom")}
}

// ownToken is a token somebody made here.
func (h *hookRig) ownToken() string {
	k := h.c.App.EVMKeeper
	u := h.c.Accs[1]
	f, err := k.GetERC20FactoryAddr(h.ctx)
	must(err)
	ret, _, err := k.EVMCall(h.ctx, u.Eth, f, pack(factoryABI, "createERC20", "own", "OWN", uint8(3)), nil, nil)
	must(err)
	tok := common.BytesToAddress(ret)
	_, _, err = k.EVMCall(h.ctx, u.Eth, tok, pack(erc20ABI, "mint", u.Eth, big.NewInt(1_000_000_000)), nil, nil)
	must(err)
	return "evm/" + tok.Hex()[2:]
}

// homeNFT leaves a token of ours with the counterparty.
func (h *hookRig) homeNFT() asset {
	if h.rng.Intn(2) == 0 { // a token which came here over other channels was sent on over this one
		path := []string{"nft-transfer/channel-91", "nft-transfer/channel-91/nft-transfer/channel-4"}[h.rng.Intn(2)]
		tr := nfttransfertypes.ParseClassTrace(path + "/cats")
		must(h.c.App.NftTransferKeeper.ClassTraces.Set(h.ctx, tr.Hash(), tr))
		k := h.c.App.EVMKeeper.ERC721Keeper()
		must(k.CreateOrUpdateClass(h.ctx, tr.IBCClassId(), "class uri", ""))
		must(k.Mints(h.ctx, nfttransfertypes.GetEscrowAddress(ports721.port, ports721.near), tr.IBCClassId(), []string{"7"}, []string{"uri 7"}, []string{""}))
		return asset{kind: fmt.Sprintf("home-%d-hops", strings.Count(path, "/")/2+1), denom: ports721.port + "/" + ports721.far + "/" + path + "/cats", ids: []string{"7"}, local: tr.IBCClassId()}
	}
	u := h.c.Accs[1]
	// a collection of ours, by a contract of ours
	_, addr, _, err := h.c.App.EVMKeeper.EVMCreate(h.ctx, u.Eth, append(common.FromHex(ics721_erc721.Ics721Erc721Bin), pack(erc721ABI, "", "Cats", "CAT")...), nil, nil)
	must(err)
	_, _, err = h.c.App.EVMKeeper.EVMCall(h.ctx, u.Eth, addr, pack(erc721ABI, "mint", u.Eth, big.NewInt(7), "uri 7", "7"), nil, nil)
	must(err)
	class := "evm/" + addr.Hex()[2:]
	m := nfttransfertypes.NewMsgTransfer(ports721.port, ports721.near, class, []string{"7"}, u.Bech(), "far", clienttypes.ZeroHeight(), uint64(h.ctx.BlockTime().UnixNano())+3_600_000_000_000, "")
	_, err = ibcHandle(h.c, h.ctx, m)
	must(err)
	return asset{kind: "home", denom: ports721.port + "/" + ports721.far + "/" + class, ids: []string{"7"}, local: class}
}

// relay runs the arrival of the data in a branch.
func (h *hookRig) relay(ctx sdk.Context, data []byte) (ok bool, ack *channeltypes.Acknowledgement, err error) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case storetypes.ErrorOutOfGas: // the relaying transaction fails as a whole
			err = errOutOfGas
		default:
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	ack, _, err = ibcArrive(h.c, ctx, h.port(), h.seq, data)
	return err == nil && ack != nil && ack.Success(), ack, err
}

var errOutOfGas = errors.New("out of gas")

const hookGas = 20_000_000

func monI01(r *R) {
	r.Rule = "distinct = (application, kind of asset, kind of memo, target, what the contract does, outcome)"
	r.ParCase("packet", r.N(700, 20000), func(id string, rng *rand.Rand) {
		h := newHookRig(rng)
		c := h.c
		from := []string{"cosmos1sender", c.Accs[2].Bech(), "0xabc", "a/b", authorityAddr(), "某人", strings.Repeat("x", 200)}[rng.Intn(7)]
		as := h.someAsset()
		inter := hookSender(h.port().near, from)
		interEth := common.BytesToAddress(inter)

		// the same without a hook, to the derived account
		learn := branch(h.ctx, hookGas)
		okPlain, _, _ := h.relay(learn, as.data(h.nft, from, inter.String(), ""))
		var token common.Address
		if okPlain {
			var err error
			if h.nft {
				token, err = evmtypes.ContractAddressFromClassId(learn, c.App.EVMKeeper, as.local)
			} else {
				token, err = evmtypes.DenomToContractAddr(learn, c.App.EVMKeeper, as.local)
			}
			if err != nil {
				r.Violate(id, "unknown-token", "%s arrived as %s, which is no token: %v", as.denom, as.local, err)
				return
			}
		}

		// the contract
		does := []string{"nothing", "nothing", "pull", "pull", "pull-more", "revert", "invalid", "loop", "inner-revert", "message", "die"}[rng.Intn(11)]
		var sc []byte
		amt, _ := new(big.Int).SetString(as.amount, 10)
		if amt == nil || amt.Sign() < 0 || amt.BitLen() > 256 {
			amt = big.NewInt(1)
		}
		switch does {
		case "pull", "pull-more":
			if h.nft {
				for _, t := range as.ids {
					n, ok := evmtypes.TokenIdToBigInt(as.local, t)
					if !ok {
						continue
					}
					sc = append(sc, script(rec(pCall, token, nil, pack(erc721ABI, "transferFrom", interEth, c.Accs[3].Eth, n)))...)
				}
			} else {
				n := amt
				if does == "pull-more" && n.BitLen() < 255 {
					n = new(big.Int).Add(amt, big.NewInt(1))
				}
				sc = script(rec(pCall, token, nil, pack(erc20ABI, "transferFrom", interEth, c.Accs[3].Eth, n)))
			}
		case "inner-revert":
			sc = script(rec(pCallCatch, h.puppet, nil, script(rec(pSstore, 5, 5, nil), rec(pRevert, nil, nil, nil))), rec(pSstore, 6, 6, nil))
		case "message":
			// the contract itself sends coins it has
			sc = nil
		case "die":
			sc = script(rec(pSelfdestruct, c.Accs[3].Eth, nil, nil))
		}
		spy := h.deploy(spyCode(h.puppet, does, sc))
		must(c.App.BankKeeper.SendCoins(h.ctx, c.Accs[1].Acc, spy.Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 500))))
		if does == "message" {
			js := sendMsgJSON(spy.Bytes(), c.Accs[3].Acc, "uusdc", []int64{5, 5000}[rng.Intn(2)])
			old := spy
			// its address is not known before it is deployed: a second one moves the first one's coins
			spy = createAddr(c.Accs[0].Eth, c.App.AccountKeeper.GetAccount(h.ctx, c.Accs[0].Acc).GetSequence())
			js = strings.ReplaceAll(js, sdk.AccAddress(old.Bytes()).String(), sdk.AccAddress(spy.Bytes()).String())
			must(c.App.BankKeeper.SendCoins(h.ctx, c.Accs[1].Acc, spy.Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 500))))
			spy = h.deploy(spyCode(h.puppet, does, script(rec(pCall, evmtypes.CosmosPrecompileAddress, nil, execData(js)))))
		}

		// the memo
		target := spy
		tkind := "spy"
		switch rng.Intn(12) {
		case 0:
			target, tkind = c.Accs[4].Eth, "eoa"
		case 1:
			target, tkind = evmtypes.CosmosPrecompileAddress, "precompile"
		case 2:
			if token != (common.Address{}) {
				target, tkind = token, "token"
			}
		case 3:
			target, tkind = common.BytesToAddress(crypto.Keccak256([]byte(id))), "nobody"
		}
		allowed := rng.Intn(5) > 0
		if allowed {
			allowHook(c, h.ctx, target.Bytes(), true)
		} else {
			switch rng.Intn(3) {
			case 0:
				allowHook(c, h.ctx, target.Bytes(), false)
			case 1: // somebody else is
				allowHook(c, h.ctx, h.puppet.Bytes(), true)
				allowHook(c, h.ctx, inter, true)
			}
		}
		name := target.Hex()
		form := "hex"
		switch rng.Intn(6) {
		case 0:
			name, form = strings.ToLower(name), "lower"
		case 1:
			name, form = sdk.AccAddress(target.Bytes()).String(), "bech32"
		case 2:
			if rng.Intn(3) == 0 {
				name, form = name[2:], "bare"
			}
		}
		input := [][]byte{{}, {1, 2, 3}, crypto.Keccak256([]byte(id)), script(rec(pSstore, 1, 1, nil))}[rng.Intn(4)]
		if tkind == "token" {
			if h.nft {
				n, _ := evmtypes.TokenIdToBigInt(as.local, as.ids[0])
				if n == nil {
					n = big.NewInt(1)
				}
				input = pack(erc721ABI, "transferFrom", interEth, c.Accs[3].Eth, n)
			} else {
				input = pack(erc20ABI, "transfer", c.Accs[3].Eth, big.NewInt(1))
			}
		}
		msg := map[string]any{"contract_addr": name, "input": hexBytes(input)}
		if rng.Intn(2) == 0 {
			msg["sender"] = []string{c.Accs[2].Bech(), authorityAddr(), inter.String(), "", "junk"}[rng.Intn(5)]
		}
		if v := rng.Intn(6); v > 0 {
			msg["value"] = []string{"0", "0", "1", "5", "100000000000000000000"}[v-1]
		}
		if rng.Intn(4) == 0 {
			msg["access_list"] = []any{map[string]any{"address": spy.Hex(), "storage_keys": []string{common.Hash{}.Hex()}}}
		}
		receiver := name
		mkind := "hook"
		var memo string
		plainTo := c.Accs[5].Bech()
		switch rng.Intn(10) {
		case 0, 1: // none
			mkind = "none"
			full := memoOf(map[string]any{"message": msg})
			memo = []string{"", "hello", "{", "[]", "5", `"evm"`, `{"wasm":{}}`, `{"evm":null}`, `{"evm":{}}`, `{"evm":"x"}`, `{"evm":[]}`, `{"evm":7}`, `{"EVM":` + full + `}`, `{"Evm":` + full + `}`, `{"x":{"evm":` + full + `}}`, `[{"evm":` + full + `}]`,
				`{"evm":{"async_callback":{"id":1,"contract_address":"` + name + `"}}}`, `{"evm":` + full, `{"evm":{"message":null}}`, `{"move":{"message":{}}}`}[rng.Intn(20)]
			receiver = []string{plainTo, plainTo, name, "junk", inter.String()}[rng.Intn(5)]
		case 2: // malformed
			mkind = "malformed"
			switch rng.Intn(6) {
			case 0:
				msg["contract_addr"] = 5
			case 1:
				msg["input"] = []any{1, 2}
			case 2:
				msg["value"] = []string{"abc", "1.5", "0x5", "", " 1"}[rng.Intn(5)]
			case 3:
				msg["access_list"] = "none"
			case 4:
				msg["value"] = 5
			case 5:
				msg["input"] = []string{"0x1", "0xzz", "zz"}[rng.Intn(3)]
			}
			memo = memoOf(map[string]any{"evm": map[string]any{"message": msg}})
			receiver = []string{name, name, plainTo}[rng.Intn(3)]
		case 3:
			mkind = "hook-and-forward"
			memo = memoOf(map[string]any{"evm": map[string]any{"message": msg}, "forward": map[string]any{"receiver": plainTo, "port": ports20.port, "channel": []string{ports20.near, ports20.far, "channel-99"}[rng.Intn(3)]}})
		default:
			hook := map[string]any{"message": msg}
			if rng.Intn(3) == 0 {
				hook["async_callback"] = map[string]any{"id": 3, "contract_address": spy.Hex()}
			}
			top := map[string]any{"evm": hook}
			if rng.Intn(3) == 0 {
				top["note"] = "x"
			}
			memo = memoOf(top)
			if rng.Intn(6) == 0 {
				mkind = "hook-other-receiver"
				receiver = []string{plainTo, inter.String(), strings.ToUpper(name), h.puppet.Hex(), spy.Hex() + " "}[rng.Intn(5)]
			}
		}

		// expectations
		before := appDump(c, h.ctx)
		notes0 := spyNotes(c, h.ctx, spy)
		plain := branch(h.ctx, hookGas)
		okP, _, _ := h.relay(plain, as.data(h.nft, from, receiver, ""))
		var want verifkit.Dump // after delivery and call
		var call evmtypes.MsgCall
		parsed := json.Unmarshal([]byte(memoOf(msg)), &call) == nil
		burner := false
		if okPlain && parsed {
			call.Sender = inter.String()
			cc := branch(h.ctx, hookGas)
			h.relay(cc, as.data(h.nft, from, inter.String(), ""))
			err := attempt(cc, func(ctx sdk.Context) error {
				ap := func(input []byte) error {
					_, err := ibcHandle(c, ctx, &evmtypes.MsgCall{Sender: inter.String(), ContractAddr: token.Hex(), Input: hexBytes(input), Value: math.ZeroInt()})
					return err
				}
				if h.nft {
					for _, t := range as.ids {
						n, ok := evmtypes.TokenIdToBigInt(as.local, t)
						if !ok {
							return fmt.Errorf("token id")
						}
						if err := ap(pack(erc721ABI, "approve", target, n)); err != nil {
							return err
						}
					}
				} else {
					n, _ := new(big.Int).SetString(as.amount, 10)
					if err := ap(pack(erc20ABI, "approve", target, n)); err != nil {
						return err
					}
				}
				_, err := ibcHandle(c, ctx, &call)
				return err
			})
			if err == nil {
				want = appDump(c, cc)
			} else {
				burner = true
			}
		}

		got := branch(h.ctx, hookGas)
		ok, ack, err := h.relay(got, as.data(h.nft, from, receiver, memo))
		after := appDump(c, got)
		notes := spyNotes(c, got, spy)
		r.Eval(1)
		out := "error-ack"
		switch {
		case ok:
			out = "ok"
		case err != nil && strings.HasPrefix(err.Error(), "panic"):
			out = "panic"
		case err != nil:
			out = "refused"
		case ack == nil:
			out = "no-ack"
		}
		r.Count(mkind+"_"+out, 1)
		r.Distinct(fmt.Sprintf("nft=%v|%s|%s|%s|%s|%s|%v|%s|%s", h.nft, as.kind, mkind, tkind, does, form, allowed, msg["value"], out))
		desc := fmt.Sprintf("packet of %q: %q %v %v to %q from %q, memo %.400s (target %s %s, %s, allowed=%v)", h.port().port, as.denom, as.amount, as.ids, receiver, from, memo, tkind, form, does, allowed)
		r.Sample("%s -> %s %v %v", desc, out, ack, err)

		if err != nil {
			if errors.Is(err, errOutOfGas) && burner {
				r.Count("out_of_gas", 1)
				return
			}
			r.Violate(id, "no-answer", "%s: neither delivered nor refused: %v", desc, err)
			return
		}
		nothing := func(why string) {
			if ok {
				r.Violate(id, "taken", "%s: taken although %s", desc, why)
				return
			}
			if d := verifkit.Diff(withoutIBC(before), withoutIBC(after)); len(d) > 0 {
				r.Violate(id, "trace", "%s: refused (%v), but it changed\n%s", desc, ack, verifkit.DiffString(d, 12))
			}
		}
		same := func(what string, exp, got verifkit.Dump) bool {
			if d := verifkit.Diff(exp, got); len(d) > 0 {
				r.Violate(id, what, "%s: state differs from %s\n%s", desc, what, verifkit.DiffString(d, 12))
				return false
			}
			return true
		}
		switch mkind {
		case "none":
			if ok != okP {
				r.Violate(id, "plain", "%s: ok=%v, without the memo %v (%v)", desc, ok, okP, ack)
				return
			}
			if !ok {
				nothing("")
				return
			}
			same("plain delivery", appDump(c, plain), after)
			return
		case "malformed":
			switch {
			case !ok:
				nothing("")
			case notes != notes0 && notes.calls != notes0.calls:
				r.Violate(id, "malformed-ran", "%s: a malformed memo ran the contract", desc)
			default:
				same("plain delivery", appDump(c, plain), after)
			}
			return
		case "hook-other-receiver":
			if receiver != name {
				nothing("the receiver is not the contract")
				return
			}
		case "hook-and-forward":
			if !ok {
				nothing("")
				return
			}
			if ack == nil {
				r.Violate(id, "unanswered", "%s: left unanswered", desc)
				return
			}
			if h.nft { // nobody forwards those
				break
			}
			r.Violate(id, "forwarded", "%s: accepted", desc)
			return
		}
		switch {
		case !allowed:
			nothing("the contract is not allowed")
		case !okPlain:
			nothing("the transfer fails")
		case want == nil:
			nothing("the call fails")
		case !ok:
			r.Violate(id, "refused", "%s: refused (%v) although transfer and call work", desc, ack)
		default:
			if !same("delivery and call", want, after) {
				return
			}
			if tkind == "spy" && does != "die" {
				v := call.Value
				if v.IsNil() {
					v = math.ZeroInt()
				}
				exp := spied{notes0.calls + 1, interEth, v.BigInt(), crypto.Keccak256Hash(input)}
				if notes.calls != exp.calls || notes.caller != exp.caller || notes.value.Cmp(exp.value) != 0 || notes.data != exp.data {
					r.Violate(id, "call", "%s: the contract saw %+v, not %+v", desc, notes, exp)
				}
				r.Count("calls_seen", 1)
			}
		}
	})
}
