package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	cryptoenc "github.com/cometbft/cometbft/crypto/encoding"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	localhost "github.com/cosmos/ibc-go/v8/modules/light-clients/09-localhost"
	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	nfttransfertypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
)

func init() { monitors["G01"] = monG01 }

// loops makes a history send coins and NFTs over channels of the chain to itself.
type loops struct {
	x         *hrun
	p20, p721 ibcPort
	packets   []channeltypes.Packet
	nfts      []nftHeld
}

type nftHeld struct {
	owner *verifkit.Account
	class string
	id    string
}

func yes(*Ledger) bool { return true }

func newLoops(x *hrun) *loops {
	l := &loops{x: x, p20: ports20, p721: ports721}
	do := func(m sdk.Msg) *sdk.Result {
		x.Run([]*TxMeta{x.cosmosTx(x.c.Val, []sdk.Msg{m}, 2_000_000, "handshake", yes)})
		res := x.All[len(x.All)-1].Res
		if res.Code != 0 {
			panic("handshake: " + res.Log)
		}
		var md sdk.TxMsgData
		must(md.Unmarshal(res.Data))
		return &sdk.Result{MsgResponses: md.MsgResponses}
	}
	openChannel(x.c, do, &l.p20)
	openChannel(x.c, do, &l.p721)
	return l
}

func (l *loops) before(txs []*TxMeta) []*TxMeta {
	x := l.x
	add := func(m *TxMeta) {
		if m != nil {
			txs = append(txs, m)
		}
	}
	until := uint64(x.c.Now.Add(10 * time.Hour).UnixNano())
	for i := 0; i < 2; i++ {
		a := x.eoa()
		if a == nil {
			break
		}
		switch x.rng.Intn(6) {
		case 0, 1: // coins
			d := []string{verifkit.FeeDenom, "uusdc", "zeta"}[x.rng.Intn(3)]
			if t := x.pickTok(); x.rng.Intn(2) == 0 && t.denom != "" {
				d = t.denom
			}
			add(x.cosmosTx(a, []sdk.Msg{transfertypes.NewMsgTransfer(l.p20.port, l.p20.near, verifkit.Coin(d, 7), a.Bech(), x.users[x.rng.Intn(len(x.users))].Bech(), clienttypes.ZeroHeight(), until, "")}, 5_000_000, "ibc-transfer", yes))
		case 2: // a collection
			m := x.ethTx(a, nil, append(common.FromHex(ics721_erc721.Ics721Erc721Bin), pack(erc721ABI, "", "Cats", "CAT")...), nil, 9_000_000, "nft-deploy", yes)
			addr := createAddr(a.Eth, m.Seqs[len(m.Seqs)-1])
			m.After = func(*abci.ExecTxResult) {
				l.nfts = append(l.nfts, nftHeld{a, "evm/" + addr.Hex()[2:], ""})
			}
			add(m)
		case 3: // mint
			for i, n := range l.nfts {
				if n.id == "" && !x.dirty[string(n.owner.Acc)] {
					to := common.HexToAddress(n.class[4:])
					id := fmt.Sprint(x.c.Height)
					m := x.ethTx(n.owner, &to, pack(erc721ABI, "mint", n.owner.Eth, big.NewInt(x.c.Height), "uri "+id, id), nil, 2_000_000, "nft-mint", yes)
					m.After = func(*abci.ExecTxResult) { l.nfts[i].id = id }
					add(m)
					break
				}
			}
		case 4: // NFT away
			for i, n := range l.nfts {
				if n.id != "" && n.owner != nil && !x.dirty[string(n.owner.Acc)] {
					m := x.cosmosTx(n.owner, []sdk.Msg{nfttransfertypes.NewMsgTransfer(l.p721.port, l.p721.near, n.class, []string{n.id}, n.owner.Bech(), x.users[0].Bech(), clienttypes.ZeroHeight(), until, "")}, 9_000_000, "nft-transfer", yes)
					m.After = func(*abci.ExecTxResult) { l.nfts[i] = nftHeld{nil, "", "x"} }
					add(m)
					break
				}
			}
		case 5: // what other modules keep
			b := x.users[x.rng.Intn(len(x.users))]
			if b.Bech() == a.Bech() {
				continue
			}
			exp := x.c.Now.Add(time.Duration(x.rng.Intn(1000)+1) * time.Hour)
			if x.rng.Intn(2) == 0 {
				g, err := authz.NewMsgGrant(a.Acc, b.Acc, banktypes.NewSendAuthorization(sdk.NewCoins(verifkit.Coin("uusdc", 55)), nil), &exp)
				must(err)
				add(x.cosmosTx(a, []sdk.Msg{g}, 500_000, "grant", yes))
			} else {
				g, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{SpendLimit: sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 77)), Expiration: &exp}, a.Acc, b.Acc)
				must(err)
				add(x.cosmosTx(a, []sdk.Msg{g}, 500_000, "feegrant", yes))
			}
		}
	}
	if !x.dirty[string(x.c.Val.Acc)] {
		switch {
		case len(l.packets) > 0:
			pk := l.packets[0]
			l.packets = l.packets[1:]
			add(x.cosmosTx(x.c.Val, []sdk.Msg{channeltypes.NewMsgRecvPacket(pk, localhost.SentinelProof, clienttypes.NewHeight(0, 1), x.c.Val.Bech())}, 20_000_000, "ibc-recv", yes))
		case x.rng.Intn(3) == 0:
			m := x.adminTx(&hookstypes.MsgUpdateACL{Authority: authorityAddr(), Address: sdk.AccAddress(x.puppets[x.rng.Intn(len(x.puppets))].Bytes()).String(), Allowed: x.rng.Intn(3) > 0})
			m.Kind, m.Apply = "hook-acl", yes
			add(m)
		}
	}
	return txs
}

func (l *loops) block(txs []*TxMeta) {
	for _, m := range txs {
		if m.Res.Code != 0 {
			continue
		}
		if pk, ok := ibcSent(&sdk.Result{Events: m.Res.Events}); ok && pk.SourceChannel != "" {
			l.packets = append(l.packets, pk)
		}
	}
}

// exported makes the next chain from what this one exports.
func exported(c *verifkit.Chain, edit func(cfg *verifkit.Config)) (n *verifkit.Chain, state []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	exp, err := c.App.ExportAppStateAndValidators(false, nil, nil)
	if err != nil {
		return nil, nil, err
	}
	if exp.Height != c.Height+1 {
		return nil, nil, fmt.Errorf("exported for height %d at %d", exp.Height, c.Height)
	}
	cfg := verifkit.Config{ChainID: c.Cfg.ChainID, NAcc: c.Cfg.NAcc, GasPrice: c.Cfg.GasPrice, RawGenesis: exp.AppState, InitialHeight: exp.Height, GenesisTime: c.Now, GenesisParams: &exp.ConsensusParams, NoBlock: true}
	for _, v := range exp.Validators {
		pk, err := cryptoenc.PubKeyToProto(v.PubKey)
		if err != nil {
			return nil, nil, err
		}
		cfg.GenesisVals = append(cfg.GenesisVals, abci.ValidatorUpdate{PubKey: pk, Power: v.Power})
	}
	if edit != nil {
		edit(&cfg)
	}
	return verifkit.NewChain(cfg), exp.AppState, nil
}

// genesisDiff is what differs between two genesis states, by module.
func genesisDiff(a, b []byte) string {
	var x, y map[string]json.RawMessage
	must(json.Unmarshal(a, &x))
	must(json.Unmarshal(b, &y))
	for m := range x {
		if !bytes.Equal(x[m], y[m]) {
			i := 0
			for i < len(x[m]) && i < len(y[m]) && x[m][i] == y[m][i] {
				i++
			}
			cut := func(s []byte) string {
				lo, hi := i-150, i+150
				if lo < 0 {
					lo = 0
				}
				if hi > len(s) {
					hi = len(s)
				}
				return string(s[lo:hi])
			}
			return fmt.Sprintf("module %s: …%s… and …%s…", m, cut(x[m]), cut(y[m]))
		}
	}
	if len(x) != len(y) {
		return "other modules"
	}
	return ""
}

func monG01(r *R) {
	r.Rule = "distinct = (before or after the export, kind, outcome and shape of a transaction)"
	r.hists("export", 14, 400, &watch{blocks: 7, per: 12, start: func(x *hrun) {
		x.blockKeys()
		x.state["l"] = newLoops(x)
		x.state["p"] = newProbes(x)
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta {
		p := x.state["p"].(*probes)
		txs = x.state["l"].(*loops).before(txs)
		if m := p.tx(); m != nil {
			txs = append(txs, m)
		}
		if x.rng.Intn(4) == 0 {
			if m := p.params(); m != nil {
				txs = append(txs, m)
			}
		}
		return txs
	}, block: func(x *hrun, txs []*TxMeta) { x.state["l"].(*loops).block(txs) }, end: func(x *hrun) {
		g01End(x)
	}})
}

// unkept leaves out what a genesis does not carry: the headers of past
// blocks, which opchild keeps for IBC, and the empty lists of expiring grants
// the SDK leaves behind.
func unkept(d []verifkit.DiffEntry) (out []verifkit.DiffEntry) {
	for _, e := range d {
		if e.Store == "opchild" && e.Key[0] == 0x21 || e.Store == "authz" && e.Key[0] == 2 && len(e.Old)+len(e.New) == 0 {
			continue
		}
		out = append(out, e)
	}
	return
}

// topKept tells whether the newest account still exists. When it does not (a
// contract which destroyed itself), the next account number of the SDK's auth
// module, which its genesis does not carry, starts lower in the next chain.
func topKept(c *verifkit.Chain) bool {
	ctx := c.QCtx()
	next, err := c.App.AccountKeeper.AccountNumber.Peek(ctx)
	must(err)
	kept := false
	c.App.AccountKeeper.IterateAccounts(ctx, func(a sdk.AccountI) bool {
		kept = a.GetAccountNumber() == next-1
		return kept
	})
	return kept
}

func g01End(x *hrun) {
	r := x.r
	for i := 0; !topKept(x.c); i++ {
		a := x.users[i%len(x.users)]
		if i > 20 || !x.step([]*TxMeta{x.bankSend(a, x.freshAddr().Bytes(), sdk.NewCoins(verifkit.Coin("uusdc", 1)))}) {
			return
		}
	}
	before := x.c.Dump()
	n, state, err := exported(x.c, nil)
	if err != nil {
		x.bad("export", "%v", err)
		return
	}
	if d := verifkit.Diff(before, x.c.Dump()); len(d) > 0 {
		x.bad("export-changes", "exporting changed\n%s", verifkit.DiffString(d, 10))
		return
	}
	r.Count("genesis_bytes", len(state))
	for _, s := range []string{"evm", "bank", "acc", "transfer", "nfttransfer", "ibc", "authz", "feegrant"} {
		r.Count("records_"+s, len(before[s]))
	}
	chains := map[string]*verifkit.Chain{"imported": n}
	p, l := x.state["p"].(*probes), x.state["l"].(*loops)
	for k := 0; k < 5; k++ {
		var txs []*TxMeta
		if k > 0 {
			txs = l.before(x.GenBlock(10))
			for i := 0; i < 2; i++ {
				if m := p.tx(); m != nil {
					txs = append(txs, m)
				}
			}
		}
		if !x.step(txs) {
			return
		}
		b := x.c.Blocks[len(x.c.Blocks)-1]
		want := x.c.Dump()
		exp, err := x.c.App.ExportAppStateAndValidators(false, nil, nil)
		if err != nil {
			x.bad("export", "%v", err)
			return
		}
		for name, c := range chains {
			r.Eval(1)
			res := c.Replay(b)
			if res == nil {
				x.bad("halt-"+name, "the %s chain stopped: %v", name, c.HaltErr)
				return
			}
			one, two := *b.Res, *res
			one.AppHash, two.AppHash = nil, nil
			if k == 0 { // told at the start, if at all
				one.ValidatorUpdates, two.ValidatorUpdates = nil, nil
			}
			if d := sameResult(&one, &two); d != "" {
				x.bad("behaves-"+name, "%d blocks after the export, the %s chain: %s", k, name, d)
				return
			}
			if d := unkept(verifkit.Diff(want, c.Dump())); len(d) > 0 {
				x.bad("state-"+name, "%d blocks after the export, the state of the %s chain differs\n%s", k, name, verifkit.DiffString(d, 10))
				return
			}
			again, err := c.App.ExportAppStateAndValidators(false, nil, nil)
			if err != nil {
				x.bad("re-export-"+name, "%v", err)
				return
			}
			if d := genesisDiff(exp.AppState, again.AppState); d != "" {
				x.bad("re-export-"+name, "the %s chain exports another genesis: %s", name, d)
				return
			}
			if fmt.Sprint(exp.Validators, exp.Height, exp.ConsensusParams) != fmt.Sprint(again.Validators, again.Height, again.ConsensusParams) {
				x.bad("re-export-"+name, "the %s chain exports other validators or parameters", name)
				return
			}
			r.Count("blocks_compared_"+name, 1)
		}
		for _, m := range txs {
			r.Distinct("after|" + m.class())
		}
		if k >= 1 && len(chains) == 1 && topKept(n) { // a second generation
			c, _, err := exported(n, nil)
			if err != nil {
				x.bad("export-imported", "%v", err)
				return
			}
			chains["twice imported"] = c
		}
		if k == 2 && x.rng.Intn(2) == 0 && topKept(x.c) {
			g01Zero(x)
		}
	}
}

// g01Zero starts a chain at height one from the state.
func g01Zero(x *hrun) {
	c := x.c
	defer func() {
		if p := recover(); p != nil {
			x.bad("zero", "a chain for height zero: %v", p)
		}
	}()
	exp, err := c.App.ExportAppStateAndValidators(true, nil, nil)
	if err != nil {
		x.bad("zero", "%v", err)
		return
	}
	if exp.Height != 0 {
		x.bad("zero", "exported for height %d", exp.Height)
	}
	n := verifkit.NewChain(verifkit.Config{ChainID: c.Cfg.ChainID, NAcc: c.Cfg.NAcc, GasPrice: c.Cfg.GasPrice, RawGenesis: exp.AppState, GenesisTime: c.Now, GenesisParams: &exp.ConsensusParams})
	x.r.Eval(1)
	if n.HaltErr != nil {
		x.bad("zero", "%v", n.HaltErr)
		return
	}
	if d := unkept(x.withoutBlockKeys(verifkit.Diff(c.Dump(), n.Dump()))); len(d) > 0 {
		x.bad("zero", "state of a chain for height zero differs\n%s", verifkit.DiffString(d, 10))
	}
	x.r.Count("zero_height", 1)
}
