package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/core/header"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/ibc-apps/middleware/packet-forward-middleware/v8/packetforward"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	nfttransfertypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"
	forwardingtypes "github.com/noble-assets/forwarding/v2/x/forwarding/types"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_wrapper"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// B08: what crosses a channel. A reference ledger of balances, supplies and escrow follows every
// packet that leaves, comes, is acknowledged, refused or timed out, and every automatic forward.

func init() { monitors["B08"] = monB08 }

func monB08(r *R) {
	r.Rule = "distinct = (step, kind of coin or token, fate, outcome)"
	r.ParCase("coins", r.N(60, 2500), func(id string, rng *rand.Rand) { b08Coins(r, id, rng) })
	r.ParCase("nfts", r.N(60, 2500), func(id string, rng *rand.Rand) { b08Nfts(r, id, rng) })
	r.ParCase("wrap", r.N(24, 400), func(id string, rng *rand.Rand) { b08Wrap(r, id, rng) })
}

// b08 is the reference ledger.
type b08 struct {
	r      *R
	id     string
	h      *hookRig
	names  map[string]string // of addresses
	who    []sdk.AccAddress  // whose balances are followed
	denoms []string
	kind   map[string]string // of denominations: own (of this chain) or voucher
	path   map[string]string // of vouchers: the denomination as the counterparty tells it
	bal    map[string]*big.Int
	sup    map[string]*big.Int
	esc    map[string]*big.Int // what the transfer application says is in escrow
	open   []sent8
	seq    uint64
	escrow sdk.AccAddress
	fwds   []sdk.AccAddress
	fwdTo  map[string]string
	pend   map[string]bool
	steps  []string
}

type sent8 struct {
	pk    channeltypes.Packet
	from  sdk.AccAddress
	denom string
	n     *big.Int
	done  bool
}

// passing is a packet that is sent on over another channel: the chain
// acknowledges it once it knows what became of the one it sent.
type passing struct {
	pk    channeltypes.Packet
	denom string
	n     *big.Int
}

func (b *b08) key(a sdk.AccAddress, d string) string { return string(a) + "|" + d }

func (b *b08) get(a sdk.AccAddress, d string) *big.Int {
	v := b.bal[b.key(a, d)]
	if v == nil {
		v = new(big.Int)
		b.bal[b.key(a, d)] = v
	}
	return v
}

func (b *b08) follow(name string, a sdk.AccAddress) {
	b.names[string(a)] = name
	b.who = append(b.who, a)
}

func (b *b08) coin(d, kind string) {
	if b.kind[d] != "" {
		return
	}
	b.denoms = append(b.denoms, d)
	b.kind[d] = kind
	ctx, k := b.h.ctx, b.h.c.App.BankKeeper
	for _, a := range b.who {
		b.bal[b.key(a, d)] = k.GetBalance(ctx, a, d).Amount.BigInt()
	}
	b.sup[d] = k.GetSupply(ctx, d).Amount.BigInt()
	b.esc[d] = b.h.c.App.TransferKeeper.GetTotalEscrowForDenom(ctx, d).Amount.BigInt()
}

func (b *b08) move(from, to sdk.AccAddress, d string, n *big.Int) {
	f := b.get(from, d)
	f.Sub(f, n)
	t := b.get(to, d)
	t.Add(t, n)
}

func (b *b08) mint(to sdk.AccAddress, d string, n *big.Int) {
	t := b.get(to, d)
	t.Add(t, n)
	b.sup[d].Add(b.sup[d], n)
}

func (b *b08) burn(from sdk.AccAddress, d string, n *big.Int) {
	b.mint(from, d, new(big.Int).Neg(n))
}

// out is what sending away does, back what taking it back does.
func (b *b08) out(from sdk.AccAddress, d string, n *big.Int) {
	if b.kind[d] == "voucher" {
		b.burn(from, d, n)
		return
	}
	b.move(from, b.escrow, d, n)
	b.esc[d].Add(b.esc[d], n)
}

func (b *b08) back(to sdk.AccAddress, d string, n *big.Int) {
	if b.kind[d] == "voucher" {
		b.mint(to, d, n)
		return
	}
	b.move(b.escrow, to, d, n)
	b.esc[d].Sub(b.esc[d], n)
}

func (b *b08) bad(sig, f string, a ...any) {
	n := len(b.steps)
	b.r.Violate(b.id, sig, "%s [after %s]", fmt.Sprintf(f, a...), strings.Join(b.steps[max(0, n-6):], "; "))
}

// look compares everything.
func (b *b08) look() bool {
	ctx, c := b.h.ctx, b.h.c
	ok := true
	for _, d := range b.denoms {
		tok, err := evmtypes.DenomToContractAddr(ctx, c.App.EVMKeeper, d)
		for _, a := range b.who {
			want := b.get(a, d)
			got := c.App.BankKeeper.GetBalance(ctx, a, d).Amount.BigInt()
			b.r.Eval(1)
			if got.Cmp(want) != 0 {
				b.bad("balance", "%s has %s %s instead of %s", b.names[string(a)], got, d, want)
				ok = false
			}
			if err == nil && len(a) == 20 {
				if v := viewInt(ctx, c, tok, "balanceOf", common.BytesToAddress(a)); v.Cmp(want) != 0 {
					b.bad("contract", "the contract of %s says %s has %s instead of %s", d, b.names[string(a)], v, want)
					ok = false
				}
			}
		}
		if got := c.App.BankKeeper.GetSupply(ctx, d).Amount.BigInt(); got.Cmp(b.sup[d]) != 0 {
			b.bad("supply", "there are %s %s instead of %s", got, d, b.sup[d])
			ok = false
		}
		if got := c.App.TransferKeeper.GetTotalEscrowForDenom(ctx, d).Amount.BigInt(); got.Cmp(b.esc[d]) != 0 {
			b.bad("escrow", "the transfer application tells of %s %s in escrow instead of %s", got, d, b.esc[d])
			ok = false
		}
	}
	return ok
}

func (b *b08) step(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	b.steps = append(b.steps, s)
}

func (b *b08) amount(have *big.Int) *big.Int {
	rng := b.h.rng
	switch rng.Intn(8) {
	case 0:
		return new(big.Int).Set(have)
	case 1:
		return new(big.Int).Add(have, big.NewInt(1))
	case 2:
		return new(big.Int)
	case 3:
		return big.NewInt(1)
	}
	n := big.NewInt(1 + rng.Int63n(2000))
	if n.Cmp(have) > 0 && rng.Intn(4) > 0 {
		n.Div(have, big.NewInt(2))
	}
	return n
}

// inBranch runs f all or nothing, with little gas at times.
func (b *b08) inBranch(f func(ctx sdk.Context) error) (err error, starved bool) {
	ctx := b.h.ctx
	little := b.h.rng.Intn(12) == 0
	if little {
		ctx = ctx.WithGasMeter(storetypes.NewGasMeter(uint64(b.h.rng.Intn(400_000))))
	} else {
		ctx = ctx.WithGasMeter(storetypes.NewGasMeter(50_000_000))
	}
	cc, write := ctx.CacheContext()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(storetypes.ErrorOutOfGas); ok {
				err = errOutOfGas
			} else {
				err = fmt.Errorf("panic: %v", p)
			}
		}
		starved = little && err != nil // what runs out of gas deep within may just revert
	}()
	if err = f(cc); err == nil {
		write()
	}
	return
}

func b08Coins(r *R, id string, rng *rand.Rand) {
	c := ibcBase()
	h := &hookRig{c: c, ctx: c.Scratch(0), rng: rng, seq: 1}
	b := &b08{r: r, id: id, h: h, names: map[string]string{}, kind: map[string]string{}, path: map[string]string{}, bal: map[string]*big.Int{}, sup: map[string]*big.Int{}, esc: map[string]*big.Int{}, seq: 1, fwdTo: map[string]string{}, pend: map[string]bool{}}
	b.escrow = transfertypes.GetEscrowAddress(ports20.port, ports20.near)
	blocked := authtypes.NewModuleAddress(authtypes.FeeCollectorName)
	var users []sdk.AccAddress
	for i := 1; i < 4; i++ {
		users = append(users, c.Accs[i].Acc)
		b.follow(fmt.Sprint("user", i), c.Accs[i].Acc)
	}
	newcomer := sdk.AccAddress(freshBytes(rng))
	b.follow("newcomer", newcomer)
	b.follow("escrow", b.escrow)
	b.follow("collector", blocked)
	puppet := h.deploy(puppetCode())
	b.follow("contract", puppet.Bytes())
	for i := 0; i < 2; i++ {
		to := fmt.Sprintf("far%d", i)
		_, err := ibcHandle(c, h.ctx, &forwardingtypes.MsgRegisterAccount{Signer: users[0].String(), Recipient: to, Channel: ports20.near, Fallback: ""})
		must(err)
		a := forwardingtypes.GenerateAddress(ports20.near, to, "")
		b.fwds = append(b.fwds, a)
		b.fwdTo[string(a)] = to
		b.follow("forwarder"+fmt.Sprint(i), a)
	}
	escrow2 := transfertypes.GetEscrowAddress(second20.port, second20.near)
	b.follow("second escrow", escrow2)
	through, err := packetforward.GetReceiver(ports20.near, "farsender")
	must(err)
	b.follow("passed through", sdk.MustAccAddressFromBech32(through))
	var passed []passing
	own := h.ownToken()
	for _, d := range []string{"uusdc", verifkit.FeeDenom, own} {
		b.coin(d, "own")
	}
	for _, p := range []string{"atom", "transfer/channel-77/osmo"} {
		d := ibcDenom(ports20, p)
		b.path[d] = p
		b.coin(d, "voucher")
	}
	names := append(append([]sdk.AccAddress{}, users...), newcomer, puppet.Bytes())
	trace := func(d string) string { // as our packets name it
		if p := b.path[d]; p != "" {
			return ports20.port + "/" + ports20.near + "/" + p
		}
		return d
	}
	for n := 30 + rng.Intn(30); n > 0; n-- {
		d := b.denoms[rng.Intn(len(b.denoms))]
		what, fate := "", ""
		switch op := rng.Intn(24); {
		case op >= 22 && len(passed) > 0: // what became of one that was passed on
			i := rng.Intn(len(passed))
			s := passed[i]
			how := []string{"taken", "refused", "timeout"}[rng.Intn(3)]
			if b.kind[s.denom] == "own" {
				how = "taken" // the middleware's own books of the escrow are wrong otherwise
			}
			var res *sdk.Result
			err, starved := b.inBranch(func(ctx sdk.Context) (err error) {
				switch how {
				case "taken":
					res, err = ibcAckRes(c, ctx, s.pk, channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement())
				case "refused":
					res, err = ibcAckRes(c, ctx, s.pk, channeltypes.NewErrorAcknowledgement(errors.New("no")).Acknowledgement())
				default:
					res, err = ibcTimeoutRes(c, ctx.WithBlockTime(ctx.BlockTime().Add(2*time.Hour)), s.pk)
				}
				return
			})
			d = s.denom
			b.step("packet %d of %s %s passed on is %s: %v", s.pk.Sequence, s.n, d, how, err)
			what, fate = "passed-"+how, fmt.Sprint(err == nil)
			if err != nil && !starved {
				b.bad("pass-settle", "the packet of %s %s passed on, %s: %v", s.n, d, how, err)
				return
			}
			if err != nil {
				break
			}
			passed = append(passed[:i:i], passed[i+1:]...)
			if ack, _ := ibcAcked(c, res); ack == nil || ack.Success() != (how == "taken") {
				b.bad("pass-ack", "the packet of %s %s passed on is %s, and the one that came is acknowledged with %v", s.n, d, how, ack)
				return
			}
			if how != "taken" {
				b.burn(escrow2, d, s.n)
				b.esc[d].Sub(b.esc[d], s.n)
			}
		case op >= 20: // arrives to be passed on over another channel
			am, denom := b.amount(b.esc[d]), ports20.port+"/"+ports20.far+"/"+d
			want := am.Sign() > 0
			if b.kind[d] == "voucher" {
				denom, am = b.path[d], b.amount(big.NewInt(1000))
				want = am.Sign() > 0 && new(big.Int).Add(b.sup[d], am).BitLen() <= 256
			} else if am.Cmp(b.get(b.escrow, d)) > 0 {
				want = false
			}
			channel := second20.near
			if rng.Intn(5) == 0 {
				channel, want = "channel-99", false
			}
			memo := memoOf(map[string]any{"forward": map[string]any{"receiver": "farther", "port": second20.port, "channel": channel, "retries": 0}})
			var ack *channeltypes.Acknowledgement
			var got []channeltypes.Packet
			err, starved := b.inBranch(func(ctx sdk.Context) (err error) {
				em := sdk.NewEventManager()
				ack, _, err = ibcArrive(c, ctx.WithEventManager(em), ports20, b.seq, ics20(denom, am.String(), "farsender", through, memo))
				got = allSent(em.ABCIEvents())
				return
			})
			b.step("%s %s arrive to be passed on over %s: %v %v, %d sent", am, denom, channel, ack, err, len(got))
			what, fate = "pass", fmt.Sprintf("%v|%v", want, ack == nil)
			if err != nil && !starved {
				b.bad("pass-refused", "the packet of %s %s to be passed on: %v", am, denom, err)
				return
			}
			if err != nil {
				break
			}
			b.seq++
			if starved = ack != nil && strings.Contains(ack.GetError(), "out of gas"); starved {
				break
			}
			if (ack == nil) != want || (ack != nil && ack.Success()) {
				b.bad("pass", "the packet of %s %s to be passed on over %s: %v", am, denom, channel, ack)
				return
			}
			if !want {
				break
			}
			if len(got) != 1 || got[0].SourceChannel != second20.near {
				b.bad("pass-sent", "%d packets are sent for %s %s to be passed on", len(got), am, denom)
				return
			}
			b.packet(got[0], trace(d), am, sdk.MustAccAddressFromBech32(through), "farther")
			if b.kind[d] == "voucher" {
				b.mint(escrow2, d, am)
				b.esc[d].Add(b.esc[d], am)
			} else {
				b.move(b.escrow, escrow2, d, am)
			}
			passed = append(passed, passing{got[0], d, am})
		case op < 5: // send away
			from := users[rng.Intn(len(users))]
			am := b.amount(b.get(from, d))
			want := am.Sign() > 0 && am.Cmp(b.get(from, d)) <= 0
			var pk channeltypes.Packet
			err, starved := b.inBranch(func(ctx sdk.Context) (err error) {
				pk, err = sendIcs20(c, ctx.WithEventManager(sdk.NewEventManager()), from, sdk.NewCoin(d, math.NewIntFromBigInt(am)), "far", []string{"", "note", `{"evm":{}}`}[rng.Intn(3)])
				return
			})
			b.step("%s sends %s %s: %v", b.names[string(from)], am, d, err)
			what, fate = "send", fmt.Sprint(err == nil)
			if (err == nil) != want && !(starved && err != nil) {
				b.bad("send", "sending %s %s of %s: %v", am, d, b.get(from, d), err)
				return
			}
			if err == nil {
				b.out(from, d, am)
				b.open = append(b.open, sent8{pk: pk, from: from, denom: d, n: am})
				b.packet(pk, trace(d), am, from, "far")
			}
		case op < 10 && len(b.open) > 0: // what became of one
			i := rng.Intn(len(b.open))
			s := &b.open[i]
			how := []string{"taken", "refused", "timeout"}[rng.Intn(3)]
			var ack []byte
			switch how {
			case "taken":
				ack = channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()
			case "refused":
				ack = channeltypes.NewErrorAcknowledgement(errors.New("no")).Acknowledgement()
			}
			again := s.done
			var err error
			err, starved := b.inBranch(func(ctx sdk.Context) error {
				if ack == nil {
					return ibcTimeout(c, ctx.WithBlockTime(ctx.BlockTime().Add(2*time.Hour)), s.pk)
				}
				return ibcAck(c, ctx, s.pk, ack)
			})
			b.step("packet %d of %s %s is %s: %v", s.pk.Sequence, s.n, s.denom, how, err)
			what, fate = how, fmt.Sprintf("%v|%v", again, err == nil)
			// a lying counterparty may have had the coins back already
			short := how != "taken" && b.kind[s.denom] == "own" && b.get(b.escrow, s.denom).Cmp(s.n) < 0
			// or have sent more than a contract can count
			if how != "taken" && b.kind[s.denom] == "voucher" {
				short = new(big.Int).Add(b.sup[s.denom], s.n).BitLen() > 256
			}
			if !again && short && err == nil {
				b.bad("overdrawn", "%s %s come back with %s in escrow", s.n, s.denom, b.esc[s.denom])
				return
			}
			if err != nil && !starved && !again && !short {
				b.bad("settle", "packet of %s %s by %s, %s: %v", s.n, s.denom, b.names[string(s.from)], how, err)
				return
			}
			if err == nil && !again {
				s.done = true
				if how != "taken" {
					b.back(s.from, s.denom, s.n)
					if b.fwdTo[string(s.from)] != "" && b.kind[s.denom] == "voucher" {
						// minted for it anew: it is passed on once more
						b.pend[string(s.from)] = true
					}
				}
			}
		case op < 15: // arrives
			to, name := names[rng.Intn(len(names))], ""
			switch rng.Intn(8) {
			case 0:
				to = b.fwds[rng.Intn(len(b.fwds))]
			case 1:
				to = blocked
			case 2:
				to = nil
				name = []string{"", "junk", "cosmos1qqqq", "init1"}[rng.Intn(4)]
			}
			if to != nil {
				name = to.String()
			}
			denom, am := "", b.amount(b.esc[d])
			if b.kind[d] == "voucher" {
				denom = b.path[d]
				am = b.amount(big.NewInt(1000))
				if rng.Intn(15) == 0 {
					am = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1+rng.Int63n(3)))
				}
			} else {
				denom = ports20.port + "/" + ports20.far + "/" + d
			}
			text := am.String()
			if rng.Intn(10) == 0 {
				text = []string{"-" + text, text + ".0", "", "1e3"}[rng.Intn(4)]
			}
			want := to != nil && am.Sign() > 0 && !to.Equals(blocked) && text == am.String()
			if b.kind[d] == "voucher" {
				if s := new(big.Int).Add(b.sup[d], am); s.BitLen() > 256 {
					want = false
				}
			} else if am.Cmp(b.get(b.escrow, d)) > 0 {
				want = false
			}
			ok := false
			var ack *channeltypes.Acknowledgement
			err, starved := b.inBranch(func(ctx sdk.Context) (err error) {
				ack, _, err = ibcArrive(c, ctx.WithEventManager(sdk.NewEventManager()), ports20, b.seq, ics20(denom, text, "farsender", name, ""))
				return
			})
			if err == nil {
				ok = ack != nil && ack.Success()
				if ack == nil {
					b.bad("no-ack", "the arrival of %s %s is not acknowledged", text, denom)
					return
				}
			}
			b.step("%s %s arrive for %s: %v %v", text, denom, b.names[string(to)], ok, err)
			what, fate = "arrive", fmt.Sprintf("%s|%v", b.names[string(to)], ok)
			if err != nil && !starved {
				b.bad("arrive-refused", "the packet of %s %s for %q: %v", text, denom, name, err)
				return
			}
			if err == nil && ok != want {
				b.bad("arrive", "the packet of %s %s for %q: %v", text, denom, name, ack)
				return
			}
			if ok {
				b.back(to, d, am)
				if b.fwdTo[string(to)] != "" {
					b.pend[string(to)] = true
				}
			}
			if err == nil { // it has come, and does not come twice
				_, raw, err := ibcArrive(c, branch(h.ctx, 0), ports20, b.seq, ics20(denom, text, "farsender", name, ""))
				if err == nil && raw != nil {
					b.bad("twice", "the packet of %s %s was taken twice", text, denom)
				}
				b.seq++
			}
		case op < 18: // between accounts, to forwarders too
			from := users[rng.Intn(len(users))]
			to := names[rng.Intn(len(names))]
			if rng.Intn(3) == 0 {
				to = b.fwds[rng.Intn(len(b.fwds))]
			}
			am := b.amount(b.get(from, d))
			if am.Sign() == 0 {
				continue
			}
			want := am.Cmp(b.get(from, d)) <= 0
			err, starved := b.inBranch(func(ctx sdk.Context) error {
				return c.App.BankKeeper.SendCoins(ctx, from, to, sdk.NewCoins(sdk.NewCoin(d, math.NewIntFromBigInt(am))))
			})
			b.step("%s pays %s %s %s: %v", b.names[string(from)], b.names[string(to)], am, d, err)
			what, fate = "pay", fmt.Sprintf("%s|%v", b.names[string(to)], err == nil)
			if (err == nil) != want && !(starved && err != nil) {
				b.bad("pay", "paying %s %s of %s: %v", am, d, b.get(from, d), err)
				return
			}
			if err == nil {
				b.move(from, to, d, am)
				if b.fwdTo[string(to)] != "" {
					b.pend[string(to)] = true
				}
			}
		default: // the end of a block
			ctx := h.ctx.WithEventManager(sdk.NewEventManager()).WithHeaderInfo(header.Info{Height: h.ctx.BlockHeight(), Time: h.ctx.BlockTime(), ChainID: h.ctx.ChainID()})
			end, err := c.App.ModuleManager.EndBlock(ctx)
			if err != nil {
				b.bad("endblock", "the end of a block: %v", err)
				return
			}
			got := allSent(end.Events)
			what, fate = "endblock", fmt.Sprint(len(got))
			b.step("the block ends: %d packets", len(got))
			for _, a := range b.fwds {
				if !b.pend[string(a)] {
					continue
				}
				for _, d := range b.denoms {
					n := new(big.Int).Set(b.get(a, d))
					if n.Sign() == 0 {
						continue
					}
					i := 0
					for ; i < len(got); i++ {
						var p transfertypes.FungibleTokenPacketData
						must(json.Unmarshal(got[i].Data, &p))
						if p.Denom == trace(d) && p.Sender == a.String() {
							break
						}
					}
					if i == len(got) {
						b.bad("not-forwarded", "%s keeps %s %s", b.names[string(a)], n, d)
						return
					}
					b.packet(got[i], trace(d), n, a, b.fwdTo[string(a)])
					b.out(a, d, n)
					b.open = append(b.open, sent8{pk: got[i], from: a, denom: d, n: n})
					got = append(got[:i:i], got[i+1:]...)
				}
			}
			if len(got) > 0 {
				b.bad("forwarded", "packets at the end of a block nobody is due: %s", got[0].Data)
				return
			}
			b.pend = map[string]bool{}
			clearTransient(c, h.ctx)
		}
		if what == "" {
			continue
		}
		r.Distinct(what + "|" + kindCoin(d, b, own) + "|" + fate)
		r.Count("step_"+what, 1)
		if !b.look() {
			return
		}
	}
}

func kindCoin(d string, b *b08, own string) string {
	switch d {
	case own:
		return "own token"
	case verifkit.FeeDenom:
		return "fee"
	}
	return b.kind[d]
}

// clearTransient: the transient store of the forwarding module is emptied with the block.
func clearTransient(c *verifkit.Chain, ctx sdk.Context) {
	k := c.App.ForwardingKeeper
	for _, f := range k.GetPendingForwards(ctx) {
		must(k.PendingForwards.Remove(ctx, f.Address))
	}
}

// packet: what left says what was sent.
func (b *b08) packet(pk channeltypes.Packet, denom string, n *big.Int, from sdk.AccAddress, to string) {
	var p transfertypes.FungibleTokenPacketData
	if err := json.Unmarshal(pk.Data, &p); err != nil {
		b.bad("packet", "packet data %q: %v", pk.Data, err)
		return
	}
	if p.Denom != denom || p.Amount != n.String() || p.Sender != from.String() || p.Receiver != to {
		b.bad("packet", "the packet %s should bring %s %s from %s to %s", pk.Data, n, denom, from, to)
	}
}

// allSent are the packets which left.
func allSent(es []abci.Event) (out []channeltypes.Packet) {
	for _, e := range es {
		if e.Type == channeltypes.EventTypeSendPacket {
			one := &sdk.Result{}
			one.Events = append(one.Events, e)
			if pk, ok := ibcSent(one); ok {
				out = append(out, pk)
			}
		}
	}
	return
}

// b08Nfts does the same for tokens: each has one owner, or is with the counterparty.
func b08Nfts(r *R, id string, rng *rand.Rand) {
	c := ibcBase()
	h := &hookRig{c: c, ctx: c.Scratch(0), rng: rng, seq: 1, nft: true}
	k := c.App.EVMKeeper
	escrow := sdk.AccAddress(nfttransfertypes.GetEscrowAddress(ports721.port, ports721.near))
	users := []sdk.AccAddress{c.Accs[1].Acc, c.Accs[2].Acc, c.Accs[3].Acc, freshBytes(rng)}
	names := map[string]string{string(escrow): "escrow", "": "nobody"}
	for i, u := range users {
		names[string(u)] = fmt.Sprint("user", i)
	}
	type token struct{ class, id string }
	owner := map[token]string{} // of each token that ever was: "" when it is not here
	uri := map[token]string{}
	own, far := "", ibcDenom(ports721, "cats")
	_, addr, _, err := k.EVMCreate(h.ctx, c.Accs[1].Eth, append(common.FromHex(ics721_erc721.Ics721Erc721Bin), pack(erc721ABI, "", "Cats", "CAT")...), nil, nil)
	must(err)
	own = "evm/" + addr.Hex()[2:]
	for i := 1; i <= 4; i++ {
		u := users[rng.Intn(3)]
		t := token{own, fmt.Sprint(i)}
		uri[t] = "uri " + t.id
		_, _, err = k.EVMCall(h.ctx, c.Accs[1].Eth, addr, pack(erc721ABI, "mint", common.BytesToAddress(u), big.NewInt(int64(i)), uri[t], t.id), nil, nil)
		must(err)
		owner[t] = string(u)
	}
	var steps []string
	bad := func(sig, f string, a ...any) {
		r.Violate(id, sig, "%s [after %s]", fmt.Sprintf(f, a...), strings.Join(steps[max(0, len(steps)-6):], "; "))
	}
	b := &b08{r: r, id: id, h: h}
	look := func() bool {
		for t, who := range owner {
			r.Eval(1)
			got := ""
			if ca, err := evmtypes.ContractAddressFromClassId(h.ctx, k, t.class); err == nil {
				if n, ok := evmtypes.TokenIdToBigInt(t.class, t.id); ok {
					if ret, err := k.EVMStaticCall(branch(h.ctx, 10_000_000), evmtypes.NullAddress, ca, pack(erc721ABI, "ownerOf", n), nil); err == nil && len(ret) == 32 {
						got = string(sdk.AccAddress(ret[12:]))
						if common.BytesToAddress(ret) == (common.Address{}) {
							got = ""
						}
					}
				}
			}
			if got != who {
				bad("owner", "%s %s is with %x instead of %s", t.class, t.id, got, names[who])
				return false
			}
			if uris, _, err := k.ERC721Keeper().GetTokenInfos(h.ctx, t.class, []string{t.id}); who != "" && (err != nil || len(uris) != 1 || uris[0] != uri[t]) {
				bad("info", "%s %s tells %q instead of %q: %v", t.class, t.id, uris, uri[t], err)
				return false
			}
		}
		return true
	}
	type sentN struct {
		pk   channeltypes.Packet
		from sdk.AccAddress
		ts   []token
		uris []string
		done bool
	}
	var open []sentN
	seq := uint64(1)
	list := func(class string) (o []string) {
		for t := range owner {
			if t.class == class {
				o = append(o, t.id)
			}
		}
		sort.Strings(o)
		return
	}
	for n := 25 + rng.Intn(25); n > 0; n-- {
		class := []string{own, far}[rng.Intn(2)]
		what, fate := "", ""
		switch op := rng.Intn(14); {
		case op < 4: // send away some
			from := users[rng.Intn(len(users))]
			all := list(class)
			if len(all) == 0 {
				continue
			}
			var ids []string
			want := true
			var ts []token
			pick := map[string]bool{}
			for j := 1 + rng.Intn(3); j > 0; j-- {
				i := all[rng.Intn(len(all))]
				if owner[token{class, i}] != string(from) && rng.Intn(6) > 0 {
					continue
				}
				if pick[i] {
					want = false
				}
				pick[i] = true
				ids = append(ids, i)
				ts = append(ts, token{class, i})
				want = want && owner[token{class, i}] == string(from)
			}
			if len(ids) == 0 {
				continue
			}
			var pk channeltypes.Packet
			err, starved := b.inBranch(func(ctx sdk.Context) error {
				m := nfttransfertypes.NewMsgTransfer(ports721.port, ports721.near, class, ids, from.String(), "far", clienttypes.ZeroHeight(), uint64(ctx.BlockTime().Add(time.Hour).UnixNano()), "")
				res, err := ibcHandle(c, ctx.WithEventManager(sdk.NewEventManager()), m)
				if err == nil {
					pk, _ = ibcSent(res)
				}
				return err
			})
			steps = append(steps, fmt.Sprintf("%s sends %s %v: %v", names[string(from)], class, ids, err))
			what, fate = "send", fmt.Sprintf("%d|%v", len(ids), err == nil)
			if (err == nil) != want && !(starved && err != nil) {
				bad("send", "sending %v of %s by %s: %v", ids, class, names[string(from)], err)
				return
			}
			if err == nil {
				for _, t := range ts {
					if class == own {
						owner[t] = string(escrow)
					} else {
						owner[t] = ""
					}
				}
				var uris []string
				for _, t := range ts {
					uris = append(uris, uri[t])
				}
				open = append(open, sentN{pk: pk, from: from, ts: ts, uris: uris})
				data, err := nfttransfertypes.DecodePacketData(pk.Data, pk.SourcePort)
				if err != nil || strings.Join(data.TokenIds, ",") != strings.Join(ids, ",") || data.Sender != from.String() {
					bad("packet", "the packet %s should bring %v from %s: %v", pk.Data, ids, from, err)
				}
				for i, t := range ts {
					if i < len(data.TokenUris) && data.TokenUris[i] != uri[t] {
						bad("packet-uri", "the packet tells %q of %s %s instead of %q", data.TokenUris[i], t.class, t.id, uri[t])
					}
				}
			}
		case op < 8 && len(open) > 0:
			s := &open[rng.Intn(len(open))]
			how := []string{"taken", "refused", "timeout"}[rng.Intn(3)]
			var ack []byte
			switch how {
			case "taken":
				ack = channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()
			case "refused":
				ack = channeltypes.NewErrorAcknowledgement(errors.New("no")).Acknowledgement()
			}
			err, starved := b.inBranch(func(ctx sdk.Context) error {
				if ack == nil {
					return ibcTimeout(c, ctx.WithBlockTime(ctx.BlockTime().Add(2*time.Hour)), s.pk)
				}
				return ibcAck(c, ctx, s.pk, ack)
			})
			steps = append(steps, fmt.Sprintf("packet %d is %s: %v", s.pk.Sequence, how, err))
			what, fate = how, fmt.Sprintf("%v|%v", s.done, err == nil)
			if err != nil && !s.done && !starved {
				// a token which came again in the meantime can not be given back: only of those
				clash := false
				for _, t := range s.ts {
					clash = clash || (t.class == far && owner[t] != "") || (t.class == own && owner[t] != string(escrow))
				}
				if !clash {
					bad("settle", "packet of %v by %s, %s: %v", s.ts, names[string(s.from)], how, err)
					return
				}
			}
			if err == nil && !s.done {
				s.done = true
				if how != "taken" {
					for i, t := range s.ts {
						owner[t] = string(s.from)
						uri[t] = s.uris[i]
					}
				}
			}
		case op < 12: // some arrive
			to := users[rng.Intn(len(users))]
			name := to.String()
			if rng.Intn(10) == 0 {
				to, name = nil, []string{"", "junk"}[rng.Intn(2)]
			}
			denom, ids := "cats", []string{}
			want := to != nil
			pick := map[string]bool{}
			for j := 1 + rng.Intn(3); j > 0; j-- {
				i := fmt.Sprint(1 + rng.Intn(5))
				if pick[i] {
					want = false
				}
				pick[i] = true
				ids = append(ids, i)
				t := token{class, i}
				if class == far && owner[t] != "" || class == own && owner[t] != string(escrow) {
					if j > 1 || len(ids) > 1 {
						// mostly take those which can come
						ids = ids[:len(ids)-1]
						if pick[i] = false; len(ids) == 0 {
							j++
						}
						if rng.Intn(5) > 0 {
							continue
						}
						ids = append(ids, i)
					}
					want = false
				}
			}
			if len(ids) == 0 {
				continue
			}
			if class == own {
				denom = ports721.port + "/" + ports721.far + "/" + own
			}
			uris, datas := make([]string, len(ids)), make([]string, len(ids))
			for i := range ids {
				uris[i] = fmt.Sprintf("far uri %s of %d", ids[i], seq)
			}
			data := nfttransfertypes.NewNonFungibleTokenPacketData(denom, "a class", "", ids, uris, datas, "farsender", name, "").GetBytes(ports721.port)
			var ack *channeltypes.Acknowledgement
			err, starved := b.inBranch(func(ctx sdk.Context) (err error) {
				ack, _, err = ibcArrive(c, ctx.WithEventManager(sdk.NewEventManager()), ports721, seq, data)
				return
			})
			ok := err == nil && ack != nil && ack.Success()
			steps = append(steps, fmt.Sprintf("%v of %s arrive for %s: %v %v", ids, denom, names[string(to)], ok, err))
			what, fate = "arrive", fmt.Sprintf("%d|%v", len(ids), ok)
			if err != nil && !starved {
				bad("arrive-refused", "the packet of %v of %s for %q: %v", ids, denom, name, err)
				return
			}
			if err == nil {
				seq++
				if ok != want {
					bad("arrive", "the packet of %v of %s for %q: %v", ids, denom, name, ack)
					return
				}
			}
			if ok {
				for i, t := range ids {
					owner[token{class, t}] = string(to)
					if class == far {
						uri[token{class, t}] = uris[i]
					}
				}
			}
		default: // between accounts
			all := list(class)
			if len(all) == 0 {
				continue
			}
			from, to := users[rng.Intn(len(users))], users[rng.Intn(len(users))]
			t := token{class, all[rng.Intn(len(all))]}
			if rng.Intn(3) > 0 && owner[t] != "" && owner[t] != string(escrow) {
				from = sdk.AccAddress(owner[t])
			}
			want := owner[t] == string(from)
			err, starved := b.inBranch(func(ctx sdk.Context) error {
				return k.ERC721Keeper().Transfers(ctx, from, to, t.class, []string{t.id})
			})
			steps = append(steps, fmt.Sprintf("%s gives %s %s %s: %v", names[string(from)], names[string(to)], t.class, t.id, err))
			what, fate = "give", fmt.Sprint(err == nil)
			if (err == nil) != want && !(starved && err != nil) {
				bad("give", "giving %s %s of %s: %v", t.class, t.id, names[owner[t]], err)
				return
			}
			if err == nil {
				owner[t] = string(to)
			}
		}
		if what == "" {
			continue
		}
		kind := "own class"
		if class == far {
			kind = "voucher class"
		}
		r.Distinct("nft|" + what + "|" + kind + "|" + fate)
		r.Count("nft_"+what, 1)
		if !look() {
			return
		}
	}
}

// b08Wrap: the wrapper locks a token, sends its six-decimals image away, and gives it back for the image.
func b08Wrap(r *R, id string, rng *rand.Rand) {
	c := ibcBase()
	h := &hookRig{c: c, ctx: c.Scratch(0), rng: rng, seq: 1}
	k := c.App.EVMKeeper
	u := c.Accs[1]
	w, err := k.GetERC20WrapperAddr(h.ctx)
	must(err)
	wabi, err := erc20_wrapper.Erc20WrapperMetaData.GetAbi()
	must(err)
	f, err := k.GetERC20FactoryAddr(h.ctx)
	must(err)
	dec := []int{0, 3, 6, 7, 9, 18, 30}[rng.Intn(7)]
	ret, _, err := k.EVMCall(h.ctx, u.Eth, f, pack(factoryABI, "createERC20", "own", "OWN", uint8(dec)), nil, nil)
	must(err)
	tok := common.BytesToAddress(ret)
	unit := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(0, dec-6))), nil)
	have := new(big.Int).Mul(unit, big.NewInt(1_000_000))
	_, _, err = k.EVMCall(h.ctx, u.Eth, tok, pack(erc20ABI, "mint", u.Eth, have), nil, nil)
	must(err)
	n := new(big.Int).Mul(unit, big.NewInt(1+rng.Int63n(1000)))
	if dec > 6 && rng.Intn(2) == 0 {
		n.Add(n, big.NewInt(rng.Int63n(10)))
	}
	_, _, err = k.EVMCall(h.ctx, u.Eth, tok, pack(erc20ABI, "approve", w, have), nil, nil)
	must(err)
	ask := "" // what the wrapper asks of the chain
	hooks := &tracing.Hooks{OnTxStart: func(*tracing.VMContext, *coretypes.Transaction, common.Address) {}, OnEnter: func(_ int, _ byte, _, to common.Address, input []byte, _ uint64, _ *big.Int) {
		if m, ok := cosmosABI.Methods["execute_cosmos"]; ok && to == evmtypes.CosmosPrecompileAddress && len(input) > 4 && string(input[:4]) == string(m.ID) {
			if v, err := m.Inputs.Unpack(input[4:]); err == nil {
				ask = v[0].(string)
			}
		}
	}}
	ctx := h.ctx.WithEventManager(sdk.NewEventManager())
	cc, write := ctx.CacheContext()
	_, _, err = k.EVMCallWithTracer(cc, u.Eth, w, pack(wabi, "wrap", ports20.near, tok, "far", n, big.NewInt(ctx.BlockTime().Add(time.Hour).UnixNano())), nil, nil, hooks)
	r.Eval(1)
	if err != nil {
		var m sdk.Msg
		told := c.App.AppCodec().UnmarshalInterfaceJSON([]byte(ask), &m)
		r.Distinct(fmt.Sprintf("wrap|%d|refused", dec))
		if told != nil && strings.Contains(told.Error(), `unknown field "async_callback" in types.MsgTransfer`) {
			r.Violate(id, "wrap-not-a-message", "wrapping %s of a token with %d decimals fails, as always: the wrapper asks the chain for %s, which is no message: %v", n, dec, ask, told)
			return
		}
		r.Violate(id, "wrap", "wrapping %s of a token with %d decimals: %v; asked %q", n, dec, err, ask)
		return
	}
	write()
	// the image is what it should be, and backed
	bal := func(t, a common.Address) *big.Int { return viewInt(ctx, c, t, "balanceOf", a) }
	var image common.Address
	if out := view(ctx, c, w, wabi, "wrappedTokens", tok); out != nil {
		image = out[0].(common.Address)
	}
	want := new(big.Int).Div(n, unit)
	if dec < 6 {
		want = new(big.Int).Mul(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(6-dec)), nil))
	}
	sent := allSent(ctx.EventManager().ABCIEvents())
	if len(sent) != 1 {
		r.Violate(id, "wrap-packets", "wrapping sent %d packets", len(sent))
		return
	}
	if sup := viewInt(ctx, c, image, "totalSupply"); sup.Cmp(want) != 0 {
		r.Violate(id, "wrap-image", "there are %s of the image of %s", sup, n)
	}
	if v := bal(tok, w); v.Cmp(n) != 0 {
		r.Violate(id, "wrap-locked", "%s are locked instead of %s", v, n)
	}
	fate := []string{"refused", "timeout"}[rng.Intn(2)]
	var ack []byte
	if fate == "refused" {
		ack = channeltypes.NewErrorAcknowledgement(errors.New("no")).Acknowledgement()
	}
	allowHook(c, h.ctx, w.Bytes(), true)
	err = h.settle(h.ctx, sent[0], ack)
	r.Distinct(fmt.Sprintf("wrap|%d|%s|%v", dec, fate, err == nil))
	if dust := new(big.Int).Sub(have, bal(tok, u.Eth)); err != nil || dust.Cmp(unit) >= 0 {
		r.Violate(id, "wrap-lost", "the transfer was %s (%v) and %s have not come back", fate, err, dust)
	}
}
