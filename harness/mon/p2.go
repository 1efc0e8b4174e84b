package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	auctiontypes "github.com/skip-mev/block-sdk/v2/x/auction/types"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// --- P02

// lanes in the order of a block
const (
	laneSystem = iota
	laneBid
	laneFree
	laneRest
)

// offer is a transaction given to the mempool.
type offer struct {
	bz     []byte
	kind   string
	lane   int
	by     *verifkit.Account
	seq    uint64
	gas    uint64
	since  int64
	bundle [][]byte // what a bid carries
	bid    int64
	until  uint64
}

type p02 struct {
	r     *R
	id    string
	rng   *rand.Rand
	c, b  *verifkit.Chain // the proposer and another node
	seqs  map[*verifkit.Account]uint64
	pool  []*offer
	all   map[string]*offer
	old   [][]byte
	share bool // of bids goes to the proposers
	cnt   common.Address
}

func monP02(r *R) {
	r.Rule = "distinct = (kinds of transactions side by side in a proposal, what limited it) and (change of a proposal, outcome)"
	r.ParCase("propose", r.N(24, 600), func(id string, rng *rand.Rand) { p02Run(r, id, rng) })
}

func init() { monitors["P02"] = monP02 }

func p02Run(r *R, id string, rng *rand.Rand) {
	p := &p02{r: r, id: id, rng: rng, seqs: map[*verifkit.Account]uint64{}, all: map[string]*offer{}}
	maxGas := []int64{40_000_000, 150_000_000, 1_234_000_000}[rng.Intn(3)]
	p.c = verifkit.NewChain(verifkit.Config{NAcc: 9, GasPrice: "150", MaxGas: maxGas, Indexer: rng.Intn(2) == 0})
	c := p.c
	cfg := verifkit.Config{ChainID: c.Cfg.ChainID, NAcc: 9, GasPrice: "150", MaxGas: maxGas, RawGenesis: c.Genesis, NoBlock: true}
	randNode(rng, &cfg)
	p.b = verifkit.NewChain(cfg)

	// two accounts pay no fees; auctions are in the fee token
	op, err := c.App.OPChildKeeper.GetParams(c.QCtx())
	must(err)
	op.FeeWhitelist = []string{c.Accs[6].Bech(), c.Accs[7].Bech()}
	ap := auctiontypes.DefaultParams()
	ap.ReserveFee, ap.MinBidIncrement = verifkit.Coin(verifkit.FeeDenom, 10), verifkit.Coin(verifkit.FeeDenom, 5)
	ap.FrontRunningProtection = rng.Intn(2) == 0
	if rng.Intn(2) == 0 {
		p.share = true
		ap.ProposerFee = math.LegacyMustNewDecFromStr("0.3")
	}
	run := func(txs ...[]byte) {
		res := c.Block(txs...)
		for _, t := range res.TxResults {
			if t.Code != 0 {
				panic(harnessPanic{fmt.Sprintf("setup: %s", t.Log)})
			}
		}
	}
	run(adminTx(c, &opchildtypes.MsgUpdateParams{Authority: authorityAddr(), Params: &op}))
	run(adminTx(c, &auctiontypes.MsgUpdateParams{Authority: authorityAddr(), Params: ap}))
	p.cnt = deployEth(c, c.Accs[0], verifkit.Deployer(puppetCode()))
	for _, b := range c.Blocks {
		if p.b.Replay(b) == nil {
			panic(harnessPanic{fmt.Sprint("replay: ", p.b.HaltErr)})
		}
		p.old = append(p.old, b.Txs...)
	}
	for _, a := range c.Accs {
		p.seqs[a] = c.Seq(a.Acc)
	}
	p.seqs[c.Val] = c.Seq(c.Val.Acc)
	rounds := r.N(10, 25)
	for i := 0; i < rounds && c.HaltErr == nil; i++ {
		for n := rng.Intn(14); n > 0; n-- {
			p.submit()
		}
		if !p.round(i, false) {
			return
		}
	}
	// without limits everything that is still valid gets in
	for i := 0; i < 12 && len(p.pool) > 0 && c.HaltErr == nil; i++ {
		if !p.round(rounds+i, true) {
			return
		}
	}
	r.Eval(1)
	if len(p.pool) > 0 {
		r.Violate(id, "never-proposed", "%d transactions of the mempool are not proposed, the first is %s of %s with sequence %d (lane %d, gas %d of %d per block)", len(p.pool), p.pool[0].kind, p.pool[0].by.Name, p.pool[0].seq, p.pool[0].lane, p.pool[0].gas, maxGas)
	}
	if n := c.App.Mempool().CountTx(); n != len(p.pool) {
		r.Violate(id, "mempool-count", "the mempool counts %d transactions, %d wait", n, len(p.pool))
	}
}

// next is the next transaction of an account, not yet offered.
func (p *p02) next(a *verifkit.Account, seq uint64) *offer {
	rng, c := p.rng, p.c
	o := &offer{by: a, seq: seq, lane: laneRest}
	to := c.Accs[rng.Intn(len(c.Accs))]
	price := int64(150 * (1 + rng.Intn(4)))
	free := a == c.Accs[6] || a == c.Accs[7]
	if free {
		o.lane = laneFree
	}
	cosmos := func(gas uint64, until uint64, msgs ...sdk.Msg) []byte {
		o.gas = gas
		fee := sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, int64(gas)*price))
		if free && rng.Intn(3) > 0 {
			fee = nil
		}
		return c.Cosmos(verifkit.CosmosTx{Msgs: msgs, Signers: []*verifkit.Account{a}, Seqs: []uint64{seq}, Gas: gas, Fee: fee, Timeout: until})
	}
	eth := func(e verifkit.EthTx) []byte {
		o.gas = e.Gas
		e.Type, e.Nonce = uint8(rng.Intn(3)), seq
		e.FeeCap = new(big.Int).Mul(gasPrice(c), big.NewInt(price/150))
		if free {
			e.FeeCap = new(big.Int)
		}
		return c.Eth(a, e)
	}
	send := func() sdk.Msg {
		return banktypes.NewMsgSend(a.Acc, to.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1+rng.Int63n(50))))
	}
	gas := uint64(300_000 + rng.Intn(2_000_000))
	switch rng.Intn(7) {
	case 0:
		o.kind, o.bz = "send", cosmos(gas, 0, send())
	case 1:
		o.kind, o.bz = "sends", cosmos(gas, 0, send(), send(), send())
	case 2:
		o.kind, o.bz = "eth-value", eth(verifkit.EthTx{To: &to.Eth, Value: new(big.Int), Gas: gas})
	case 3:
		o.kind, o.bz = "eth-call", eth(verifkit.EthTx{To: &p.cnt, Value: new(big.Int), Gas: gas, Data: script(rec(pSstore, rng.Intn(1<<30), 7, nil))})
	case 4:
		o.kind, o.bz = "eth-revert", eth(verifkit.EthTx{To: &p.cnt, Value: new(big.Int), Gas: gas, Data: script(rec(pRevert, nil, nil, nil))})
	case 5:
		o.kind, o.bz = "eth-create", eth(verifkit.EthTx{Value: new(big.Int), Gas: gas, Data: verifkit.Deployer([]byte{0})})
	default:
		o.kind, o.bz = "msgcall", cosmos(gas, 0, &evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: p.cnt.Hex(), Input: "0x" + hex.EncodeToString(script(rec(pSstore, 1, 2, nil))), Value: math.ZeroInt()})
	}
	return o
}

// submit offers a transaction to the mempool.
func (p *p02) submit() {
	rng, c := p.rng, p.c
	a := c.Accs[rng.Intn(8)]
	give := func(o *offer, want string) bool {
		o.since = c.Height
		res, err := c.CheckLocked(&abci.RequestCheckTx{Tx: o.bz, Type: abci.CheckTxType_New}, nil)
		ok := err == nil && res.Code == 0
		p.r.Count(fmt.Sprintf("offer_%s_%v", o.kind, ok), 1)
		p.r.Eval(1)
		if want == "yes" && !ok {
			p.r.Violate(p.id, "refused", "a valid transaction (%s of %s with sequence %d) was not admitted: %v %v", o.kind, o.by.Name, o.seq, err, res)
		}
		if want == "no" && ok {
			p.r.Violate(p.id, "admitted", "an invalid transaction (%s of %s with sequence %d) was admitted", o.kind, o.by.Name, o.seq)
		}
		if ok {
			p.pool = append(p.pool, o)
			p.all[string(o.bz)] = o
		}
		return ok
	}
	switch k := rng.Intn(24); {
	case k == 0: // ahead of its time
		o := p.next(a, p.seqs[a]+1+uint64(rng.Intn(3)))
		o.kind = "early"
		give(o, "no")
	case k == 1 && p.seqs[a] > 0:
		o := p.next(a, p.seqs[a]-1)
		o.kind = "late"
		give(o, "no")
	case k == 2:
		o := p.next(a, p.seqs[a])
		o.kind, o.bz = "bad-sig", flipSig(c, o.bz)
		give(o, "no")
	case k == 3:
		o := p.next(a, p.seqs[a])
		o.kind, o.bz = "cut", o.bz[:len(o.bz)-1-rng.Intn(20)]
		give(o, "no")
	case k == 4: // of the rollup's executor
		for _, o := range p.pool {
			if o.lane == laneSystem {
				return // one at a time
			}
		}
		m := opchildtypes.NewMsgUpdateOracle(c.Val.Bech(), uint64(c.Height), []byte{1, 2, 3})
		o := &offer{kind: "system", lane: laneSystem, by: c.Val, seq: p.seqs[c.Val], gas: 500_000}
		o.bz = c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{c.Val}, Seqs: []uint64{o.seq}, Gas: o.gas, Fee: sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 150*500_000))})
		if give(o, "yes") {
			p.seqs[c.Val]++
		}
	case k <= 6: // a bid for the top of the next block with its bundle
		me := c.Accs[8]
		for _, o := range p.pool {
			if o.by == me {
				return
			}
		}
		o := &offer{kind: "bid", lane: laneBid, by: me, seq: p.seqs[me], gas: 500_000, until: uint64(c.Height) + 1, bid: 10 + rng.Int63n(1000)}
		if rng.Intn(2) == 0 { // of somebody else
			var other *verifkit.Account
			for _, u := range c.Accs[:6] {
				busy := false
				for _, q := range p.pool {
					busy = busy || q.by == u
				}
				if !busy {
					other = u
				}
			}
			if other != nil {
				n := p.next(other, p.seqs[other])
				o.bundle = append(o.bundle, n.bz)
			}
		}
		if rng.Intn(2) == 0 {
			o.bundle = append(o.bundle, c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(me.Acc, c.Accs[0].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))}, Signers: []*verifkit.Account{me}, Seqs: []uint64{o.seq + 1}, Gas: 300_000, Fee: sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 150*300_000)), Timeout: o.until}))
		}
		if len(o.bundle) == 0 {
			return
		}
		m := &auctiontypes.MsgAuctionBid{Bidder: me.Bech(), Bid: verifkit.Coin(verifkit.FeeDenom, o.bid), Transactions: o.bundle}
		o.bz = c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{me}, Seqs: []uint64{o.seq}, Gas: o.gas, Fee: sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 150*500_000)), Timeout: o.until})
		give(o, "yes")
	case k == 7 && len(p.old) > 0:
		o := &offer{kind: "replay", by: a, bz: p.old[rng.Intn(len(p.old))]}
		give(o, "no")
	case k == 8: // too cheap
		o := &offer{kind: "cheap", by: c.Accs[0], seq: p.seqs[c.Accs[0]], gas: 400_000}
		o.bz = c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(o.by.Acc, a.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))}, Signers: []*verifkit.Account{o.by}, Seqs: []uint64{o.seq}, Gas: o.gas, Fee: sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 150*400_000-1))})
		give(o, "no")
	default:
		o := p.next(a, p.seqs[a])
		if give(o, "yes") {
			p.seqs[a]++
		}
	}
}

// process asks a node about a proposal.
func (p *p02) process(c *verifkit.Chain, txs [][]byte) (ok bool, why string) {
	defer func() {
		if e := recover(); e != nil {
			p.r.Violate(p.id, "process-panic", "ProcessProposal panicked: %v", e)
		}
	}()
	h := c.Height + 1
	res, err := c.App.ProcessProposal(&abci.RequestProcessProposal{Txs: txs, Height: h, Time: p.c.Now.Add(p.c.BlockGap), Hash: verifkit.HeaderHash(c.Cfg.ChainID, h)})
	if err != nil {
		return false, err.Error()
	}
	return res.Status == abci.ResponseProcessProposal_ACCEPT, res.Status.String()
}

// round makes one block by proposal.
func (p *p02) round(i int, ample bool) bool {
	r, rng, c := p.r, p.rng, p.c
	bad := func(sig, f string, a ...any) { r.Violate(p.id, sig, "round %d: %s", i, fmt.Sprintf(f, a...)) }
	room := []int64{8_000_000, 8_000_000, 2500, 6000, 20_000}[rng.Intn(5)]
	if ample {
		room = 8_000_000
	}
	res, err := c.App.PrepareProposal(&abci.RequestPrepareProposal{Height: c.Height + 1, Time: c.Now.Add(c.BlockGap), MaxTxBytes: room})
	if err != nil {
		bad("prepare", "PrepareProposal: %v", err)
		return false
	}
	// the transactions are of the mempool, each once, in order
	size, gas, lane := int64(0), uint64(0), laneSystem
	next := map[*verifkit.Account]uint64{}
	seen := map[string]bool{}
	kinds := map[string]bool{}
	var due [][]byte // rest of a bundle
	for j, t := range res.Txs {
		r.Eval(1)
		size += int64(len(t))
		tx, err := c.App.TxDecode(t)
		if err != nil {
			bad("undecodable", "transaction %d cannot be decoded", j)
			return false
		}
		gas += tx.(sdk.FeeTx).GetGas()
		if seen[string(t)] {
			bad("twice", "transaction %d comes twice", j)
		}
		seen[string(t)] = true
		if len(due) > 0 {
			if !bytes.Equal(t, due[0]) {
				bad("bundle", "transaction %d is not the one which the bid before it carries", j)
			}
			due = due[1:]
			for _, a := range c.Accs {
				if p.by(t) == a.Acc.String() {
					if _, ok := next[a]; !ok {
						next[a] = c.Seq(a.Acc)
					}
					next[a]++
				}
			}
			continue
		}
		o := p.all[string(t)]
		if o == nil {
			bad("foreign", "transaction %d is not of the mempool", j)
			continue
		}
		kinds[o.kind] = true
		if o.lane < lane {
			bad("lane-order", "transaction %d (%s of %s) comes after one of lane %d", j, o.kind, o.by.Name, lane)
		}
		lane = o.lane
		if _, ok := next[o.by]; !ok {
			next[o.by] = c.Seq(o.by.Acc)
		}
		if o.seq != next[o.by] {
			bad("sequence-order", "transaction %d of %s has sequence %d, not %d", j, o.by.Name, o.seq, next[o.by])
		}
		next[o.by]++
		due = o.bundle
	}
	if len(due) > 0 {
		bad("bundle", "a bid came without the whole of its bundle")
	}
	if size > room || int64(gas) > c.Cfg.MaxGas {
		bad("limits", "the proposal takes %d of %d bytes and %d of %d gas", size, room, gas, c.Cfg.MaxGas)
	}
	// an empty mempool is the only reason for an empty block, and a well-paid one is not left out for lack of nothing
	left := 0
	for _, o := range p.pool {
		if !seen[string(o.bz)] {
			left++
		}
	}
	r.Count("proposed", len(res.Txs))
	r.Count("left", left)
	r.Distinct(fmt.Sprint("proposal|", kindsOf(kinds), room, left > 0, c.Cfg.MaxGas))
	// the nodes agree with it
	for n, node := range []*verifkit.Chain{c, p.b} {
		r.Eval(1)
		if ok, why := p.process(node, res.Txs); !ok {
			bad("disagree", "node %d refuses a proposal of %d transactions (%v) the other made: %s", n, len(res.Txs), kindsOf(kinds), why)
		}
	}
	p.changed(i, res.Txs)
	// and executes it, refusing nothing
	escrow := func() math.Int { return c.Bal(auctiontypes.DefaultEscrowAccountAddress, verifkit.FeeDenom) }
	mine, held := c.Bal(c.Accs[8].Acc, verifkit.FeeDenom), escrow()
	fin := c.Block(res.Txs...)
	if fin == nil {
		bad("halt", "%v", c.HaltErr)
		return false
	}
	for j, t := range fin.TxResults {
		r.Eval(1)
		if t.Code != 0 && len(t.Events) == 0 {
			bad("refused-in-block", "transaction %d of the proposal was refused in the block: %.300s", j, t.Log)
		}
		r.Count(fmt.Sprintf("executed_%v", t.Code == 0), 1)
	}
	for _, t := range res.Txs {
		if o := p.all[string(t)]; o != nil && o.lane == laneBid {
			mine = mine.SubRaw(o.bid + 150*500_000)
			if n := len(o.bundle) - 1; p.by(o.bundle[n]) == o.by.Acc.String() {
				mine = mine.SubRaw(150 * 300_000)
			}
			held = held.AddRaw(o.bid)
			if p.share {
				held = held.SubRaw(o.bid * 3 / 10)
			}
			r.Count("bids_paid", 1)
		}
	}
	r.Eval(2)
	if now := c.Bal(c.Accs[8].Acc, verifkit.FeeDenom); !now.Equal(mine) {
		bad("bid-paid", "the bidder has %s, want %s", now, mine)
	}
	if now := escrow(); !now.Equal(held) {
		bad("bid-held", "the auction's account has %s, want %s", now, held)
	}
	other := p.b.Replay(c.Blocks[len(c.Blocks)-1])
	if other == nil || !bytes.Equal(other.AppHash, fin.AppHash) {
		bad("apphash", "the other node computes another state (%v)", p.b.HaltErr)
		return false
	}
	p.old = append(p.old, res.Txs...)
	// what was not proposed waits on
	var wait []*offer
	cut := map[*verifkit.Account]bool{} // too large for the room their lane has in the block
	for _, o := range p.pool {
		share := int64(1)
		if o.lane == laneRest {
			share = 7
		}
		if !seen[string(o.bz)] && int64(len(o.bz)) > room*share/10 {
			cut[o.by] = true
		}
		if seen[string(o.bz)] {
			for _, t := range o.bundle {
				for _, a := range c.Accs {
					if p.by(t) == a.Acc.String() {
						cut[a] = true // the bundle took the place of theirs
					}
				}
			}
		}
	}
	for _, o := range p.pool {
		in := seen[string(o.bz)]
		res, err := c.CheckLocked(&abci.RequestCheckTx{Tx: o.bz, Type: abci.CheckTxType_Recheck}, nil)
		ok := err == nil && res.Code == 0
		r.Eval(1)
		switch {
		case in && ok:
			bad("stays", "%s of %s with sequence %d was in the block and is still in the mempool", o.kind, o.by.Name, o.seq)
		case !in && !ok && (o.lane == laneBid || cut[o.by]): // (a bid was for this block only)
		case !in && !ok:
			bad("dropped", "%s of %s with sequence %d was not in the block, but left the mempool (%v %v)", o.kind, o.by.Name, o.seq, err, res)
		case !in:
			cut[o.by] = true // (the lanes of the library drop what follows one that found no room)
			wait = append(wait, o)
		}
	}
	p.pool = wait
	for _, a := range append(c.Accs, c.Val) {
		p.seqs[a] = c.Seq(a.Acc)
	}
	for _, o := range wait {
		p.seqs[o.by] = max(p.seqs[o.by], o.seq+1)
	}
	return true
}

// by is who signs a transaction.
func (p *p02) by(bz []byte) string {
	tx, err := p.c.App.TxDecode(bz)
	must(err)
	l, err := tx.(authsigning.SigVerifiableTx).GetSigners()
	must(err)
	return sdk.AccAddress(l[0]).String()
}

func kindsOf(m map[string]bool) (l []string) {
	for _, k := range []string{"system", "bid", "send", "sends", "eth-value", "eth-call", "eth-revert", "eth-create", "msgcall"} {
		if m[k] {
			l = append(l, k)
		}
	}
	return
}

// changed proposals are refused, and nothing else happens.
func (p *p02) changed(i int, txs [][]byte) {
	rng, c := p.rng, p.c
	for n := 0; n < 2; n++ {
		l := append([][]byte{}, txs...)
		how := ""
		a := c.Accs[rng.Intn(6)]
		seq := c.Seq(a.Acc)
		for _, t := range txs {
			if o := p.all[string(t)]; o != nil && o.by == a {
				seq = o.seq + 1
			} else if o != nil && o.bundle != nil {
				seq = 1 << 40 // the bundle may be theirs
			}
		}
		if seq == 1<<40 {
			return
		}
		switch rng.Intn(8) {
		case 0:
			how = "garbage"
			l = append(l, []byte{byte(rng.Intn(256)), 1, 2, 3})
		case 1:
			if len(p.old) == 0 {
				continue
			}
			how = "replay"
			l = append(l, p.old[rng.Intn(len(p.old))])
		case 2:
			if len(l) == 0 {
				continue
			}
			how = "twice"
			l = append(l, l[len(l)-1])
		case 3:
			how = "bad-sig"
			l = append(l, flipSig(c, p.next(a, seq).bz))
		case 4:
			how = "early"
			l = append(l, p.next(a, seq+1).bz)
		case 5:
			how = "late"
			if seq == 0 {
				continue
			}
			l = append(l, p.next(a, seq-1).bz)
		case 6: // more than a block holds
			how = "gas"
			m := banktypes.NewMsgSend(a.Acc, a.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))
			g := uint64(c.Cfg.MaxGas) + 1
			l = append(l, c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{a}, Seqs: []uint64{seq}, Gas: g, Fee: sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 150*int64(g)))}))
		case 7: // a free one after those that pay
			how = "lane"
			u := c.Accs[6]
			s := c.Seq(u.Acc)
			rest := false
			for _, t := range txs {
				if o := p.all[string(t)]; o != nil && o.by == u {
					s = o.seq + 1
				} else if o != nil && o.lane == laneRest {
					rest = true
				}
			}
			if !rest {
				continue
			}
			l = append(l, p.next(u, s).bz)
		}
		ok, _ := p.process(p.b, l)
		p.r.Eval(1)
		p.r.Count(fmt.Sprintf("changed_%s_%v", how, ok), 1)
		p.r.Distinct(fmt.Sprint("changed|", how, len(txs) > 0))
		if ok {
			p.r.Violate(p.id, "agree-"+how, "round %d: a proposal was accepted although %s was added", i, how)
		}
	}
}
