package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minitiaapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

var (
	collectorAddr = common.BytesToAddress(authtypes.NewModuleAddress(authtypes.FeeCollectorName))
	opchildAddr   = common.BytesToAddress(authtypes.NewModuleAddress(opchildtypes.ModuleName))
	moduleNames   = []string{"fee_collector", "opchild", "transfer", "feeibc", "interchainaccounts", "auction"}
)

// act is one thing a frame does; the ledger predicts what it does to the coins.
type act struct {
	kind   string // token value call log sstore send mcall forged selfdestruct junk
	denom  string
	method string
	args   []any
	to     common.Address
	val    int64
	catch  bool
	sub    *frame
	coins  sdk.Coins
	n      int
	late   int64 // value sent to a box which has destroyed itself
}

type frame struct {
	acts []act
	end  string // ok revert invalid
}

// expectation of a transaction
const (
	xModel  = "model"  // the ledger says whether it succeeds
	xReject = "reject" // never gets past the checks: no change at all
	xFail   = "fail"   // fails during execution: fee and sequence only
	xLoose  = "loose"  // may run out of gas where the ledger says it succeeds
)

// TxMeta is what the driver knows about a transaction it made.
type TxMeta struct {
	Kind    string
	Bytes   []byte
	Eth     *coretypes.Transaction
	Signers []*verifkit.Account
	Seqs    []uint64
	Payer   common.Address
	Fee     sdk.Coins
	Gas     uint64
	Expect  string
	Apply   func(l *Ledger) bool
	After   func(res *abci.ExecTxResult) // bookkeeping on success
	Msgs    []sdk.Msg
	Note    string
	Shape   string
	Bridge  *bridgeDep
	Wd      *sdk.Coin // withdrawal
	Work    uint64    // gas it burns at least
	Hook    []byte    // transaction in a bridge hook
	// HookSigner's sequence is used by the hook
	HookSigner *verifkit.Account

	Height    int64
	Index     int
	Res       *abci.ExecTxResult
	Predicted bool
}

func (m *TxMeta) IsEth() bool { return m.Eth != nil }

type bridgeDep struct {
	denom, base, to string
	amt             *big.Int
	seq             uint64
	hook, res       string
	blocked         bool
}

type token struct {
	denom string
	addr  common.Address
	kind  string // native factory custom bridge
}

// Hist drives random histories on one chain.
type Hist struct {
	c       *verifkit.Chain
	rng     *rand.Rand
	users   []*verifkit.Account
	hookers []*verifkit.Account
	long    *verifkit.Account
	puppets []common.Address
	tokens  []token
	L       *Ledger
	seqs    map[string]uint64
	dirty   map[string]bool
	broken  map[string]bool
	fresh   int
	l1seq   uint64
	price   math.LegacyDec
	refund  math.LegacyDec
	send    map[string]bool // disabled denoms
	factory common.Address
	Blocks  [][]*TxMeta
	All     []*TxMeta
	Weights map[string]int
	gp      *big.Int
	decs    int
	granted bool
}

func newHist(rng *rand.Rand, cfg verifkit.Config) *Hist {
	if cfg.NAcc == 0 {
		cfg.NAcc = 7
	}
	c := verifkit.NewChain(cfg)
	// the last two accounts only ever sign bridge hooks
	n := len(c.Accs) - 2
	h := &Hist{c: c, rng: rng, users: c.Accs[:n], hookers: c.Accs[n:], L: NewLedger(), seqs: map[string]uint64{}, dirty: map[string]bool{}, l1seq: 1, send: map[string]bool{}}
	h.price = math.LegacyZeroDec()
	if cfg.GasPrice != "" {
		h.price = math.LegacyMustNewDecFromStr(cfg.GasPrice)
	}
	h.long = verifkit.NewLongAccount("long" + cfg.ChainID)
	rr, err := c.App.EVMKeeper.GasRefundRatio(c.QCtx())
	must(err)
	h.refund = rr
	h.factory, err = c.App.EVMKeeper.GetERC20FactoryAddr(c.QCtx())
	must(err)
	for n := range minitiaapp.GetMaccPerms() {
		ad := common.BytesToAddress(authtypes.NewModuleAddress(n))
		h.L.blocked[ad] = true
		if n == "fee_collector" { // the only module account that exists from genesis on the bench chains
			h.L.module[ad] = true
		}
	}
	bals := c.Cfg.Balances
	for _, a := range append(append([]*verifkit.Account{}, c.Accs...), c.Val) {
		for _, co := range bals {
			h.L.mint(co.Denom, a.Eth, co.Amount.BigInt())
		}
	}
	h.L.addrs[collectorAddr] = true
	h.L.addrs[opchildAddr] = true
	for _, co := range bals {
		h.tokens = append(h.tokens, token{co.Denom, c.Contract(co.Denom), "native"})
		h.L.erc20[c.Contract(co.Denom)] = co.Denom
	}
	h.gp = gasPrice(c)
	// puppets
	var txs []*TxMeta
	for i := 0; i < 3; i++ {
		a := h.users[i]
		txs = append(txs, h.ethTx(a, nil, verifkit.Deployer(puppetCode()), nil, 5_000_000, "deploy", func(l *Ledger) bool { return true }))
		h.puppets = append(h.puppets, createAddr(a.Eth, h.seq(a)-1))
	}
	h.Run(txs)
	// fund puppets and the long account
	txs = nil
	for _, p := range h.puppets {
		coins := sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 1_000_000), verifkit.Coin("uusdc", 1_000_000), verifkit.Coin("zeta", 50_000))
		txs = append(txs, h.bankSend(h.users[0], p.Bytes(), coins))
	}
	coins := sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 1_000_000_000_000), verifkit.Coin("uusdc", 5_000_000))
	txs = append(txs, h.bankSend(h.users[1], h.long.Acc, coins))
	al, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, h.users[0].Acc, h.users[1].Acc)
	must(err)
	txs = append(txs, h.cosmosTx(h.users[0], []sdk.Msg{al}, 1_000_000, "grant", func(l *Ledger) bool { return true }))
	h.Run(txs)
	h.granted = true
	for _, m := range h.All {
		if m.Res.Code != 0 {
			panic(harnessPanic{"setup: " + m.Kind + ": " + m.Res.Log})
		}
	}
	return h
}

func (h *Hist) seq(a *verifkit.Account) uint64 {
	k := string(a.Acc)
	if _, ok := h.seqs[k]; !ok {
		h.seqs[k] = h.c.Seq(a.Acc)
	}
	return h.seqs[k]
}

func (h *Hist) takeSeq(a *verifkit.Account) uint64 {
	s := h.seq(a)
	h.seqs[string(a.Acc)] = s + 1
	return s
}

func (h *Hist) freshAddr() common.Address {
	h.fresh++
	return common.BytesToAddress([]byte(fmt.Sprintf("fresh-%08d-------", h.fresh)))
}

// pickTo: somebody to pay
func (h *Hist) pickTo() common.Address {
	r := h.rng
	switch r.Intn(10) {
	case 0:
		return h.freshAddr()
	case 1:
		n := moduleNames[r.Intn(len(moduleNames))]
		return common.BytesToAddress(authtypes.NewModuleAddress(n))
	case 2, 3:
		return h.puppets[r.Intn(len(h.puppets))]
	case 4:
		return h.long.Eth
	case 5:
		if h.fresh > 0 {
			return common.BytesToAddress([]byte(fmt.Sprintf("fresh-%08d-------", 1+r.Intn(h.fresh))))
		}
	}
	return h.users[r.Intn(len(h.users))].Eth
}

func (h *Hist) pickTok() token { return h.tokens[h.rng.Intn(len(h.tokens))] }

// amount relative to what `who` holds: affordable most of the time
func (h *Hist) amt(d string, who common.Address) *big.Int {
	b := h.L.Bal(d, who)
	switch h.rng.Intn(24) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Set(b)
	case 2:
		return new(big.Int).Add(b, big.NewInt(1))
	case 3:
		return new(big.Int).Lsh(big.NewInt(1), uint(200+h.rng.Intn(56)))
	}
	m := big.NewInt(int64(1 + h.rng.Intn(5000)))
	if b.Cmp(m) < 0 && h.rng.Intn(3) > 0 {
		return new(big.Int).Rsh(b, 1)
	}
	return m
}

func (h *Hist) eoa() *verifkit.Account {
	for i := 0; i < 20; i++ {
		a := h.users[h.rng.Intn(len(h.users))]
		if i < 10 && h.L.Bal(verifkit.FeeDenom, a.Eth).BitLen() < 40 {
			continue
		}
		if !h.dirty[string(a.Acc)] {
			return a
		}
	}
	return nil
}

// ethTx signs an ethereum transaction.
func (h *Hist) ethTx(a *verifkit.Account, to *common.Address, data []byte, value *big.Int, gas uint64, kind string, apply func(*Ledger) bool) *TxMeta {
	fc := new(big.Int).Set(h.gp)
	if h.rng.Intn(3) == 0 {
		fc.Add(fc, big.NewInt(int64(h.rng.Intn(5))))
	}
	ty := uint8(h.rng.Intn(3))
	n := h.takeSeq(a)
	e := verifkit.EthTx{Type: ty, Nonce: n, To: to, Data: data, Value: value, Gas: gas, FeeCap: fc, TipCap: fc}
	if ty > 0 && h.rng.Intn(4) == 0 && to != nil {
		e.AL = coretypes.AccessList{{Address: *to, StorageKeys: []common.Hash{{1}, {2}}}}
	}
	tx := h.c.SignEth(a, e)
	_, bz, err := h.c.EthToCosmos(tx)
	must(err)
	fee := evmtypes.FromEthersUnit(h.feeDec(), new(big.Int).Mul(fc, new(big.Int).SetUint64(gas)))
	if fc.Sign() > 0 {
		fee.Add(fee, big.NewInt(1)) // rounded up
	}
	return &TxMeta{Kind: kind, Bytes: bz, Eth: tx, Signers: []*verifkit.Account{a}, Seqs: []uint64{n}, Payer: a.Eth,
		Fee: sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, math.NewIntFromBigInt(fee))), Gas: gas, Expect: xModel, Apply: apply}
}

func (h *Hist) feeDec() uint8 {
	if h.decs == 0 {
		f, err := h.c.App.EVMKeeper.LoadFee(h.c.QCtx())
		must(err)
		h.decs = int(f.Decimals()) + 1
	}
	return uint8(h.decs - 1)
}

// cosmosTx signs a cosmos transaction of one signer.
func (h *Hist) cosmosTx(a *verifkit.Account, msgs []sdk.Msg, gas uint64, kind string, apply func(*Ledger) bool) *TxMeta {
	n := h.takeSeq(a)
	amt := h.price.MulInt64(int64(gas)).Ceil().TruncateInt()
	if h.rng.Intn(3) == 0 {
		amt = amt.AddRaw(int64(h.rng.Intn(1000)))
	}
	var fee sdk.Coins
	if amt.IsPositive() {
		fee = sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, amt))
	}
	if h.rng.Intn(8) == 0 {
		fee = fee.Add(verifkit.Coin("uusdc", int64(1+h.rng.Intn(40)))) // a second fee coin
	}
	ct := verifkit.CosmosTx{Msgs: msgs, Signers: []*verifkit.Account{a}, Seqs: []uint64{n}, Gas: gas, Fee: fee}
	m := &TxMeta{Kind: kind, Signers: ct.Signers, Seqs: ct.Seqs, Payer: a.Eth, Fee: fee, Gas: gas, Expect: xModel, Apply: apply, Msgs: msgs}
	if a == h.users[1] && h.granted && h.rng.Intn(4) == 0 {
		ct.Granter, m.Payer = h.users[0].Acc, h.users[0].Eth
		m.Kind += "-granted"
	}
	m.Bytes = h.c.Cosmos(ct)
	return m
}

// cosigned is a transaction of two signers, each sending coins.
func (h *Hist) cosigned(a, b *verifkit.Account) *TxMeta {
	sa, sb := h.someCoins(a.Eth), h.someCoins(b.Eth)
	ta, tb := h.cosmosOf(h.pickTo()), h.cosmosOf(h.pickTo())
	na, nb := h.takeSeq(a), h.takeSeq(b)
	fee := sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, h.price.MulInt64(4_000_000).Ceil().TruncateInt().AddRaw(int64(1+h.rng.Intn(9)))))
	ct := verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(a.Acc, ta, sa), banktypes.NewMsgSend(b.Acc, tb, sb)},
		Signers: []*verifkit.Account{a, b}, Seqs: []uint64{na, nb}, Gas: 4_000_000, Fee: fee}
	return &TxMeta{Kind: "cosigned", Bytes: h.c.Cosmos(ct), Signers: ct.Signers, Seqs: ct.Seqs, Payer: a.Eth, Fee: fee, Gas: ct.Gas, Expect: xModel, Msgs: ct.Msgs,
		Apply: func(l *Ledger) bool { return h.bankMove(l, a.Eth, ta, sa) && h.bankMove(l, b.Eth, tb, sb) }}
}

// evmAddr of a cosmos address
func evmAddr(a sdk.AccAddress) common.Address { return common.BytesToAddress(a) }

// bankMove is the ledger's view of bank.SendCoins by a message.
func (h *Hist) bankMove(l *Ledger, from common.Address, to sdk.AccAddress, coins sdk.Coins) bool {
	if len(coins) == 0 {
		return false
	}
	s := l.Snap()
	if l.blocked[evmAddr(to)] {
		return false
	}
	for _, c := range coins {
		if h.send[c.Denom] {
			return false
		}
	}
	// a long address whose shorthand address is taken by somebody else cannot be paid
	if len(to) == 32 && string(to) != string(h.long.Acc) {
		return false
	}
	for _, c := range coins {
		if !l.move(c.Denom, from, evmAddr(to), c.Amount.BigInt()) {
			l.Restore(s)
			return false
		}
	}
	return true
}

// poolMove pays out of the fee pool: send-disabled coins may go, blocked recipients not.
func (h *Hist) poolMove(l *Ledger, to sdk.AccAddress, coins sdk.Coins) bool {
	s, off := l.Snap(), h.send
	h.send = map[string]bool{}
	defer func() { h.send = off }()
	if len(coins) == 0 || !coins.IsValid() || !h.bankMove(l, collectorAddr, to, coins) {
		l.Restore(s)
		return false
	}
	return true
}

func (h *Hist) bankSend(a *verifkit.Account, to sdk.AccAddress, coins sdk.Coins) *TxMeta {
	m := banktypes.NewMsgSend(a.Acc, to, coins)
	return h.cosmosTx(a, []sdk.Msg{m}, 4_000_000, "bank-send", func(l *Ledger) bool { return h.bankMove(l, a.Eth, to, coins) })
}

// --- frames

func (h *Hist) genFrame(self common.Address, depth int) *frame {
	r := h.rng
	f := &frame{end: "ok"}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		a := act{catch: r.Intn(3) > 0}
		switch r.Intn(14) {
		case 0, 1, 2, 3:
			a.kind = "token"
			h.tokenAct(&a, self)
		case 4:
			a.kind, a.to, a.val = "value", h.pickTo(), int64(r.Intn(2000))
			if h.L.blocked[a.to] && r.Intn(4) > 0 {
				a.to = h.users[0].Eth
			}
			if r.Intn(6) == 0 {
				a.val = 1 << 50
			}
		case 5, 6, 7:
			if depth < 3 {
				a.kind, a.to = "call", h.puppets[r.Intn(len(h.puppets))]
				if r.Intn(3) == 0 {
					a.val = int64(r.Intn(100))
				}
				a.sub = h.genFrame(a.to, depth+1)
				if r.Intn(3) == 0 {
					a.sub.end = "revert"
				}
			} else {
				a.kind = "log"
				a.n = r.Intn(5)
			}
		case 8:
			a.kind, a.n = "log", r.Intn(5)
		case 9:
			a.kind, a.n = "sstore", r.Intn(6)
		case 10, 11:
			a.kind, a.to = "send", h.pickTo()
			t := h.pickTok()
			x := h.amt(t.denom, self)
			if x.Sign() == 0 || x.BitLen() > 190 || r.Intn(3) > 0 {
				x = big.NewInt(int64(1 + r.Intn(300)))
			}
			a.coins = sdk.NewCoins(sdk.NewCoin(t.denom, math.NewIntFromBigInt(x)))
			a.catch = true
		case 12:
			if depth < 2 {
				a.kind, a.to = "mcall", h.puppets[r.Intn(len(h.puppets))]
				a.sub = h.genFrame(a.to, depth+2)
				a.catch = true
			} else {
				a.kind = "junk"
			}
		case 13:
			a.kind = []string{"forged", "junk", "selfdestruct", "box", "box"}[r.Intn(5)]
			if a.kind == "box" {
				// a contract that destroys itself in its constructor, leaving its value to itself or to somebody
				h.fresh++
				a.n, a.val, a.catch = h.fresh, int64(r.Intn(200)), true
				if r.Intn(2) == 0 {
					a.to = h.users[r.Intn(len(h.users))].Eth
				}
				if r.Intn(2) == 0 {
					a.late = int64(1 + r.Intn(60))
				}
				f.acts = append(f.acts, a)
				continue
			}
			a.n = r.Intn(nForged)
			if a.kind == "selfdestruct" {
				a.to = h.users[r.Intn(len(h.users))].Eth
				f.acts = append(f.acts, a)
				return f
			}
			a.to = h.users[0].Eth
		}
		f.acts = append(f.acts, a)
	}
	if depth == 0 && r.Intn(8) == 0 {
		f.end = []string{"revert", "invalid"}[r.Intn(2)]
	}
	return f
}

func (h *Hist) tokenAct(a *act, self common.Address) {
	r := h.rng
	t := h.pickTok()
	what := r.Intn(12)
	if what == 9 || what == 10 { // rather a token of its own
		for i := 0; i < 12 && h.L.owner[t.denom] != self; i++ {
			t = h.pickTok()
		}
	}
	a.denom = t.denom
	x := h.amt(t.denom, self)
	switch what {
	case 0, 1, 2, 3:
		a.method, a.args = "transfer", []any{h.pickTo(), x}
	case 4, 5:
		a.method, a.args = "approve", []any{h.pickTo(), x}
	case 6, 7:
		// somebody who approved self, if any
		from := h.pickTo()
		for k, v := range h.L.allow {
			if k.s == self && v.Sign() > 0 {
				// map order is random: pick the smallest for determinism
				if from == (common.Address{}) || k.owner.Cmp(from) < 0 || !h.hasAllow(from, self) {
					from = k.owner
					a.denom = k.denom
				}
			}
		}
		for d := range h.L.sup {
			if al, ok := h.L.allow[akey{d, from, self}]; ok && al.Sign() > 0 && d < a.denom {
				a.denom = d
			}
		}
		x = big.NewInt(int64(r.Intn(400)))
		if al, ok := h.L.allow[akey{a.denom, from, self}]; ok && r.Intn(3) == 0 {
			x = new(big.Int).Add(al, big.NewInt(int64(r.Intn(2))))
		}
		if r.Intn(4) == 0 {
			a.method, a.args = "burnFrom", []any{from, x}
		} else {
			a.method, a.args = "transferFrom", []any{from, h.pickTo(), x}
		}
	case 8:
		a.method, a.args = "burn", []any{x}
	case 9:
		a.method, a.args = "mint", []any{h.pickTo(), big.NewInt(int64(r.Intn(9000)))}
	case 10:
		a.method, a.args = "transferOwnership", []any{h.users[r.Intn(len(h.users))].Eth}
		if r.Intn(2) == 0 {
			a.args[0] = h.puppets[r.Intn(len(h.puppets))]
		}
	case 11:
		switch r.Intn(3) {
		case 0:
			a.method, a.args = "sudoTransfer", []any{h.users[0].Eth, self, big.NewInt(5)}
		case 1:
			a.method, a.args = "sudoMint", []any{self, big.NewInt(5)}
		case 2:
			a.method, a.args = "sudoBurn", []any{h.users[0].Eth, big.NewInt(5)}
		}
	}
}

func (h *Hist) hasAllow(owner, s common.Address) bool {
	for k, v := range h.L.allow {
		if k.owner == owner && k.s == s && v.Sign() > 0 {
			return true
		}
	}
	return false
}

func (h *Hist) tokenAddr(d string) common.Address {
	for _, t := range h.tokens {
		if t.denom == d {
			return t.addr
		}
	}
	panic("token " + d)
}

// shape of a frame: what it does, without the amounts
func (f *frame) shape() string {
	var sb strings.Builder
	for _, a := range f.acts {
		sb.WriteString(a.kind)
		if a.kind == "token" {
			sb.WriteString("." + a.method)
		}
		if a.catch {
			sb.WriteString("?")
		}
		if a.sub != nil {
			sb.WriteString("(" + a.sub.shape() + ")")
		}
		sb.WriteString(" ")
	}
	return sb.String() + f.end
}

// strict makes every failure inside a frame fail it, so that running out of gas leaves nothing but the fee.
func (f *frame) strict() {
	var acts []act
	for _, a := range f.acts {
		if a.kind == "box" {
			continue
		}
		a.catch = false
		if a.sub != nil {
			a.sub.strict()
		}
		acts = append(acts, a)
	}
	f.acts = acts
}

// compile a frame into a puppet script
func (h *Hist) compile(self common.Address, f *frame) []byte {
	var rs []Rec
	for i := range f.acts {
		a := &f.acts[i]
		op := pCall
		if a.catch {
			op = pCallCatch
		}
		switch a.kind {
		case "token":
			rs = append(rs, rec(op, h.tokenAddr(a.denom), nil, pack(erc20ABI, a.method, a.args...)))
		case "value":
			rs = append(rs, rec(op, a.to, int(a.val), nil))
		case "call":
			rs = append(rs, rec(op, a.to, int(a.val), h.compile(a.to, a.sub)))
		case "log":
			rs = append(rs, rec(pLog, a.n, 1000+a.n, []byte(fmt.Sprintf("log-%d", a.n))))
		case "sstore":
			rs = append(rs, rec(pSstore, a.n, a.n+h.fresh, nil))
		case "send":
			rs = append(rs, rec(op, cosmosPrecompile, nil, pack(cosmosABI, "execute_cosmos", h.sendJSON(self, a.to, a.coins))))
		case "mcall":
			js := fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"%s","value":"0"}`,
				sdk.AccAddress(self.Bytes()), a.to.Hex(), hexBytes(h.compile(a.to, a.sub)))
			rs = append(rs, rec(op, cosmosPrecompile, nil, pack(cosmosABI, "execute_cosmos", js)))
		case "forged":
			// a precompile that fails takes all gas it is given: not all there is, or what follows would starve
			rs = append(rs, rec(pCallGas, cosmosPrecompile, 300_000, pack(cosmosABI, "execute_cosmos", h.forgedJSON(a.n, a.to, self))))
			if !a.catch {
				rs = append(rs, rec(pRevert, nil, nil, nil))
			}
		case "box":
			init := boxCode(a)
			rs = append(rs, rec(pCreate2, a.n, int(a.val), init))
			if a.late > 0 {
				rs = append(rs, rec(pCallCatch, create2Addr(self, a.n, init), int(a.late), nil))
			}
		case "junk":
			rs = append(rs, rec(op, h.users[0].Eth, nil, []byte("junk")))
		case "selfdestruct":
			rs = append(rs, rec(pSelfdestruct, a.to, nil, nil))
		}
	}
	switch f.end {
	case "revert":
		rs = append(rs, rec(pRevert, nil, nil, []byte("no")))
	case "invalid":
		rs = append(rs, rec(pInvalid, nil, nil, nil))
	}
	return script(rs...)
}

// boxCode is the constructor of a contract which destroys itself.
func boxCode(a *act) []byte {
	code := verifkit.NewAsm()
	if a.to == (common.Address{}) {
		code.Op(vm.ADDRESS)
	} else {
		code.Push(a.to)
	}
	return code.Op(vm.SELFDESTRUCT).Bytes()
}

const nForged = 7

// forgedJSON is a message whose signer is not self.
func (h *Hist) forgedJSON(n int, victim, self common.Address) string {
	v := sdk.AccAddress(victim.Bytes()).String()
	usdc := h.tokenAddr("uusdc").Hex()
	auth := authtypes.NewModuleAddress(opchildtypes.ModuleName).String()
	call := func(sender string, input []byte) string {
		return fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"%s","value":"0"}`, sender, usdc, hexBytes(input))
	}
	switch n {
	case 1:
		return call(v, pack(erc20ABI, "transfer", self, big.NewInt(7)))
	case 2:
		return call(sdk.AccAddress(common.HexToAddress("0x1").Bytes()).String(), pack(erc20ABI, "sudoMint", self, big.NewInt(7)))
	case 3:
		return fmt.Sprintf(`{"@type":"/opinit.opchild.v1.MsgInitiateTokenWithdrawal","sender":"%s","to":"%s","amount":{"denom":"uusdc","amount":"5"}}`, v, v)
	case 4:
		return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSetSendEnabled","authority":"%s","send_enabled":[{"denom":"uusdc","enabled":false}],"use_default_for":[]}`, auth)
	case 5:
		return fmt.Sprintf(`{"@type":"/opinit.opchild.v1.MsgSpendFeePool","authority":"%s","recipient":"%s","amount":[{"denom":"umin","amount":"5"}]}`, auth, v)
	case 6: // signed by two
		return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgMultiSend","inputs":[{"address":"%s","coins":[{"denom":"uusdc","amount":"5"}]},{"address":"%s","coins":[{"denom":"uusdc","amount":"5"}]}],"outputs":[{"address":"%s","coins":[{"denom":"uusdc","amount":"10"}]}]}`,
			sdk.AccAddress(self.Bytes()), v, v)
	}
	return h.sendJSON(victim, self, sdk.NewCoins(verifkit.Coin("uusdc", 7)))
}

func (h *Hist) sendJSON(from, to common.Address, coins sdk.Coins) string {
	var cs []string
	for _, c := range coins {
		cs = append(cs, fmt.Sprintf(`{"denom":"%s","amount":"%s"}`, c.Denom, c.Amount))
	}
	return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[%s]}`,
		sdk.AccAddress(from.Bytes()), h.cosmosOf(to), strings.Join(cs, ","))
}

func (h *Hist) cosmosOf(a common.Address) sdk.AccAddress {
	if a == h.long.Eth {
		return h.long.Acc
	}
	return a.Bytes()
}

type qmsg struct {
	self common.Address
	a    *act
}

type txPanic struct{}

// runFrame predicts a frame on the ledger; queue collects the cosmos messages.
func (h *Hist) runFrame(l *Ledger, self common.Address, f *frame, queue *[]qmsg) bool {
	for i := range f.acts {
		a := &f.acts[i]
		ok := true
		switch a.kind {
		case "token":
			ok = l.tokenCall(a.denom, a.method, self, a.args)
		case "value":
			ok = h.valueMove(l, self, a.to, a.val)
		case "call":
			s, qn := l.Snap(), len(*queue)
			ok = h.valueMove(l, self, a.to, a.val) && h.runFrame(l, a.to, a.sub, queue)
			if !ok {
				l.Restore(s)
				*queue = (*queue)[:qn]
			}
		case "send", "mcall":
			*queue = append(*queue, qmsg{self, a})
		case "forged":
			ok = false
		case "box":
			x := big.NewInt(a.val)
			made := l.Bal(verifkit.FeeDenom, self).Cmp(x) >= 0
			if made {
				if a.to == (common.Address{}) {
					l.burn(verifkit.FeeDenom, self, x)
				} else {
					l.move(verifkit.FeeDenom, self, a.to, x)
				}
			}
			if x := big.NewInt(a.late); a.late > 0 && l.Bal(verifkit.FeeDenom, self).Cmp(x) >= 0 {
				if made { // what a destroyed contract is sent is burnt with it
					l.burn(verifkit.FeeDenom, self, x)
				} else {
					l.move(verifkit.FeeDenom, self, create2Addr(self, a.n, boxCode(a)), x)
				}
			}
		case "selfdestruct":
			b := l.Bal(verifkit.FeeDenom, self)
			l.move(verifkit.FeeDenom, self, a.to, b)
			return true
		}
		if !ok && !a.catch {
			return false
		}
	}
	return f.end == "ok"
}

func (h *Hist) valueMove(l *Ledger, from, to common.Address, v int64) bool {
	if v == 0 {
		return true
	}
	x := big.NewInt(v)
	if l.Bal(verifkit.FeeDenom, from).Cmp(x) < 0 {
		return false
	}
	if l.blocked[to] {
		panic(txPanic{}) // takes the whole transaction down
	}
	return l.move(verifkit.FeeDenom, from, to, x)
}

// exec predicts an EVM execution with everything it dispatches.
func (h *Hist) exec(l *Ledger, caller, to common.Address, value int64, f *frame) (ok bool) {
	s := l.Snap()
	var q []qmsg
	ok = h.valueMove(l, caller, to, value) && h.runFrame(l, to, f, &q)
	for i := 0; ok && i < len(q); i++ {
		m := q[i]
		if m.a.kind == "send" {
			ok = h.bankMove(l, m.self, h.cosmosOf(m.a.to), m.a.coins)
		} else {
			ok = h.exec(l, m.self, m.a.to, 0, m.a.sub)
		}
	}
	if !ok {
		l.Restore(s)
	}
	return ok
}

// predict runs an Apply with panics taken as failure.
func predict(l *Ledger, f func(l *Ledger) bool) (ok bool) {
	s := l.Snap()
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(txPanic); !is {
				panic(r)
			}
			ok = false
		}
		if !ok {
			l.Restore(s)
		}
	}()
	return f(l)
}

// Gen makes one random transaction (nil: none possible now).
func (h *Hist) Gen() *TxMeta {
	r := h.rng
	a := h.eoa()
	if a == nil {
		return nil
	}
	kinds := []string{"eth-token", "eth-token", "eth-token", "eth-value", "eth-value", "eth-script", "eth-script", "eth-script", "eth-script",
		"eth-token", "eth-script", "eth-script", "bank", "bank", "bank", "bank", "msgcall", "msgcall", "msgcall", "multi", "multi", "long", "deposit", "withdraw", "long", "deposit", "withdraw", "factory", "custom", "oog", "badnonce", "poor", "sendenabled", "alias", "badsig", "multisend", "cosigned", "spendpool"}
	k := kinds[r.Intn(len(kinds))]
	if h.Weights != nil {
		if w, ok := h.Weights[k]; ok && r.Intn(100) >= w {
			return nil
		}
	}
	switch k {
	case "eth-token":
		x := act{kind: "token"}
		h.tokenAct(&x, a.Eth)
		return h.ethTx(a, addrp(h.tokenAddr(x.denom)), pack(erc20ABI, x.method, x.args...), nil, 1_000_000, "eth-"+x.method,
			func(l *Ledger) bool { return l.tokenCall(x.denom, x.method, a.Eth, x.args) })
	case "eth-value":
		to := h.pickTo()
		v := int64(r.Intn(5000))
		return h.ethTx(a, &to, nil, evmtypes.ToEthersUint(h.feeDec(), big.NewInt(v)), 500_000, "eth-value", func(l *Ledger) bool { return h.valueMove(l, a.Eth, to, v) })
	case "eth-script":
		p := h.puppets[r.Intn(len(h.puppets))]
		f := h.genFrame(p, 0)
		v := int64(0)
		if r.Intn(4) == 0 {
			v = int64(r.Intn(50))
		}
		m := h.ethTx(a, &p, h.compile(p, f), evmtypes.ToEthersUint(h.feeDec(), big.NewInt(v)), 20_000_000, "eth-script", func(l *Ledger) bool { return h.exec(l, a.Eth, p, v, f) })
		m.Shape = f.shape()
		return m
	case "bank":
		to := h.cosmosOf(h.pickTo())
		return h.bankSend(a, to, h.someCoins(a.Eth))
	case "alias":
		// a long address whose last 20 bytes are those of somebody else
		who := h.pickTo()
		if h.fresh > 0 && strings.HasPrefix(string(who[:]), "fresh") {
			who = collectorAddr
		}
		to := append(make([]byte, 12), who.Bytes()...)
		to[0] = 7
		if who == h.long.Eth || !h.knownAccount(who) {
			return nil
		}
		return h.bankSend(a, to, h.someCoins(a.Eth))
	case "multisend":
		cs := h.someCoins(a.Eth)
		m := banktypes.NewMsgMultiSend(banktypes.NewInput(a.Acc, cs), []banktypes.Output{banktypes.NewOutput(h.users[0].Acc, cs)})
		return h.cosmosTx(a, []sdk.Msg{m}, 3_000_000, "multisend", func(l *Ledger) bool { return false })
	case "msgcall":
		p := h.puppets[r.Intn(len(h.puppets))]
		f := h.genFrame(p, 0)
		v := int64(r.Intn(3))
		m := &evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: p.Hex(), Input: hexBytes(h.compile(p, f)), Value: math.NewInt(v)}
		tx := h.cosmosTx(a, []sdk.Msg{m}, 20_000_000, "msgcall", func(l *Ledger) bool { return h.exec(l, a.Eth, p, v, f) })
		tx.Shape = f.shape()
		return tx
	case "long":
		if h.dirty[string(h.long.Acc)] {
			return nil
		}
		if r.Intn(2) == 0 {
			return h.bankSend(h.long, h.cosmosOf(h.pickTo()), h.someCoins(h.long.Eth))
		}
		x := act{kind: "token"}
		h.tokenAct(&x, h.long.Eth)
		m := &evmtypes.MsgCall{Sender: h.long.Bech(), ContractAddr: h.tokenAddr(x.denom).Hex(), Input: hexBytes(pack(erc20ABI, x.method, x.args...)), Value: math.ZeroInt()}
		return h.cosmosTx(h.long, []sdk.Msg{m}, 3_000_000, "long-call", func(l *Ledger) bool { return l.tokenCall(x.denom, x.method, h.long.Eth, x.args) })
	case "multi":
		var shape []string
		var msgs []sdk.Msg
		var aps []func(*Ledger) bool
		for i := 0; i < 2+r.Intn(3); i++ {
			if r.Intn(2) == 0 {
				to, cs := h.cosmosOf(h.pickTo()), h.someCoins(a.Eth)
				msgs = append(msgs, banktypes.NewMsgSend(a.Acc, to, cs))
				aps = append(aps, func(l *Ledger) bool { return h.bankMove(l, a.Eth, to, cs) })
			} else {
				p := h.puppets[r.Intn(len(h.puppets))]
				f := h.genFrame(p, 1)
				shape = append(shape, f.shape())
				msgs = append(msgs, &evmtypes.MsgCall{Sender: a.Bech(), ContractAddr: p.Hex(), Input: hexBytes(h.compile(p, f)), Value: math.ZeroInt()})
				aps = append(aps, func(l *Ledger) bool { return h.exec(l, a.Eth, p, 0, f) })
			}
		}
		h.dirty[string(a.Acc)] = true
		mm := h.cosmosTx(a, msgs, 40_000_000, "multi-msg", func(l *Ledger) bool {
			for _, f := range aps {
				if !f(l) {
					return false
				}
			}
			return true
		})
		mm.Shape = strings.Join(shape, ",")
		return mm
	case "deposit":
		return h.deposit()
	case "cosigned":
		b := h.eoa()
		if b == nil || b == a {
			return nil
		}
		return h.cosigned(a, b)
	case "spendpool":
		if h.dirty[string(h.c.Val.Acc)] || r.Intn(2) == 0 {
			return nil
		}
		to := h.cosmosOf(h.pickTo())
		cs := h.someCoins(collectorAddr)
		m := h.adminTx(&opchildtypes.MsgSpendFeePool{Authority: authtypes.NewModuleAddress(opchildtypes.ModuleName).String(), Recipient: to.String(), Amount: cs})
		m.Kind = "spend-pool"
		m.Apply = func(l *Ledger) bool { return h.poolMove(l, to, cs) }
		return m
	case "withdraw":
		t := h.pickTok()
		for i := 0; i < 4 && (t.kind != "bridge" || h.L.Bal(t.denom, a.Eth).Sign() == 0); i++ {
			t = h.pickTok()
		}
		x := h.amt(t.denom, a.Eth)
		if x.Sign() == 0 || x.BitLen() > 190 {
			x = big.NewInt(3)
		}
		co := sdk.NewCoin(t.denom, math.NewIntFromBigInt(x))
		m := opchildtypes.NewMsgInitiateTokenWithdrawal(a.Bech(), h.users[0].Bech(), co)
		tx := h.cosmosTx(a, []sdk.Msg{m}, 4_000_000, "withdraw", func(l *Ledger) bool {
			return t.kind == "bridge" && l.burn(t.denom, a.Eth, x)
		})
		tx.Wd = &co
		return tx
	case "factory":
		if len(h.tokens) > 9 {
			return nil
		}
		nm := fmt.Sprintf("tok%d", len(h.All))
		m := h.ethTx(a, &h.factory, pack(factoryABI, "createERC20", nm, "T", uint8(r.Intn(19))), nil, 8_000_000, "factory", func(l *Ledger) bool { return true })
		m.After = func(res *abci.ExecTxResult) {
			ret := common.FromHex(responses(res)[0].(*evmtypes.MsgCallResponse).Result)
			h.addToken(common.BytesToAddress(ret), a.Eth, "factory")
		}
		return m
	case "custom":
		if len(h.tokens) > 9 {
			return nil
		}
		init := append(common.FromHex(initia_erc20.InitiaErc20Bin), mustPackCtor("Custom", "CST", uint8(r.Intn(10)))...)
		m := h.ethTx(a, nil, init, nil, 12_000_000, "custom", func(l *Ledger) bool { return true })
		addr := createAddr(a.Eth, m.Seqs[0])
		m.After = func(res *abci.ExecTxResult) { h.addToken(addr, a.Eth, "custom") }
		return m
	case "oog":
		p := h.puppets[r.Intn(len(h.puppets))]
		f := h.genFrame(p, 0)
		f.strict()
		data := h.compile(p, f)
		g := uint64(50_000 + 30*len(data) + r.Intn(500_000)) // enough to get through the checks
		m := h.ethTx(a, &p, data, nil, g, "tight-gas", func(l *Ledger) bool { return h.exec(l, a.Eth, p, 0, f) })
		m.Expect = xLoose
		m.Shape = f.shape()
		return m
	case "badnonce":
		n := h.takeSeq(a)
		d := uint64(1 + r.Intn(3))
		bad := n + d
		if r.Intn(2) == 0 && n >= d {
			bad = n - d
		}
		h.seqs[string(a.Acc)] = bad
		m := h.ethTx(a, addrp(h.users[0].Eth), nil, evmtypes.ToEthersUint(h.feeDec(), big.NewInt(1)), 300_000, "bad-nonce", nil)
		h.seqs[string(a.Acc)] = n
		m.Expect = xReject
		return m
	case "badsig":
		n := h.seq(a)
		m := h.bankSend(a, h.users[0].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))
		h.seqs[string(a.Acc)] = n
		m.Bytes = flipSig(h.c, m.Bytes)
		m.Kind, m.Expect = "bad-sig", xReject
		return m
	case "poor":
		// somebody who cannot pay the fee
		n := h.seq(a)
		over := new(big.Int).Add(h.L.Bal(verifkit.FeeDenom, a.Eth), big.NewInt(1))
		msg := banktypes.NewMsgSend(a.Acc, h.users[0].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))
		fee := sdk.NewCoins(sdk.NewCoin(verifkit.FeeDenom, math.NewIntFromBigInt(new(big.Int).Lsh(over, 3))))
		bz := h.c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{msg}, Signers: []*verifkit.Account{a}, Seqs: []uint64{n}, Gas: 1_000_000, Fee: fee})
		return &TxMeta{Kind: "poor", Bytes: bz, Signers: []*verifkit.Account{a}, Seqs: []uint64{n}, Payer: a.Eth, Fee: fee, Gas: 1_000_000, Expect: xReject, Msgs: []sdk.Msg{msg}}
	case "sendenabled":
		if h.dirty[string(h.c.Val.Acc)] || r.Intn(3) > 0 {
			return nil
		}
		d := []string{"zeta", "ibc/ABCDEF"}[r.Intn(2)]
		on := h.send[d]
		if !on && r.Intn(2) == 0 {
			return nil
		}
		set, dflt := []*banktypes.SendEnabled{{Denom: d, Enabled: on}}, []string(nil)
		if on && d == "zeta" { // enabled by default
			set, dflt = nil, []string{"uusdc", d}
		}
		m := h.adminTx(banktypes.NewMsgSetSendEnabled(authtypes.NewModuleAddress(opchildtypes.ModuleName).String(), set, dflt))
		m.Kind = "send-enabled"
		// whatever the order in the block, the ledger applies it when it comes to it
		m.Apply = func(l *Ledger) bool { h.send[d] = !on; return true }
		return m
	}
	panic(k)
}

func (h *Hist) knownAccount(a common.Address) bool {
	return h.c.App.AccountKeeper.HasAccount(h.c.QCtx(), a.Bytes()) && (a == collectorAddr || h.isUser(a) || h.isPuppet(a)) || h.L.blocked[a]
}

func (h *Hist) isUser(a common.Address) bool {
	for _, u := range h.users {
		// an account with neither key nor sequence gives way to a long address
		if u.Eth == a && h.c.Seq(u.Acc) > 0 {
			return true
		}
	}
	return false
}

func (h *Hist) isPuppet(a common.Address) bool {
	for _, u := range h.puppets {
		if u == a {
			return true
		}
	}
	return false
}

func (h *Hist) adminTx(msgs ...sdk.Msg) *TxMeta {
	m, err := opchildtypes.NewMsgExecuteMessages(h.c.Val.Bech(), msgs)
	must(err)
	return h.cosmosTx(h.c.Val, []sdk.Msg{m}, 8_000_000, "admin", func(l *Ledger) bool { return true })
}

func (h *Hist) addToken(addr, owner common.Address, kind string) {
	d := "evm/" + addr.Hex()[2:]
	h.tokens = append(h.tokens, token{d, addr, kind})
	h.L.sup[d] = new(big.Int)
	h.L.owner[d] = owner
	h.L.erc20[addr] = d
}

func (h *Hist) someCoins(who common.Address) sdk.Coins {
	cs := sdk.NewCoins()
	for i := 0; i < 1+h.rng.Intn(3); i++ {
		t := h.pickTok()
		x := h.amt(t.denom, who)
		if x.BitLen() > 250 {
			x = big.NewInt(1)
		}
		if cs.AmountOf(t.denom).IsZero() {
			cs = cs.Add(sdk.NewCoin(t.denom, math.NewIntFromBigInt(x)))
		}
	}
	if len(cs) == 0 {
		cs = sdk.NewCoins(verifkit.Coin("uusdc", 1))
	}
	return cs
}

func (h *Hist) deposit() *TxMeta {
	r := h.rng
	if h.dirty[string(h.c.Val.Acc)] {
		return nil
	}
	i := r.Intn(3)
	base := fmt.Sprintf("l1tok%d", i)
	d := fmt.Sprintf("l2/%064x", 0xabc0+i)
	to := h.pickTo()
	amt := big.NewInt(int64(r.Intn(50_000)))
	seq := h.l1seq
	kind := "deposit"
	res := "ok"
	switch r.Intn(8) {
	case 0:
		if seq > 1 {
			seq -= 1
			kind, res = "deposit-replay", "noop"
		}
	case 1:
		seq += 2
		kind, res = "deposit-early", "fail"
	}
	if res == "ok" {
		h.l1seq++
	}
	// a hook: a transaction of somebody to run after the credit
	var data []byte
	hook := ""
	var hookApply func(l *Ledger) bool
	var hookBy *verifkit.Account
	if u := h.hooker(); u != nil && r.Intn(3) == 0 && res == "ok" {
		hook = []string{"ok", "ok", "fail", "junk", "badsig", "partial", "replay"}[r.Intn(7)]
		var old *TxMeta
		if hook == "replay" { // a transaction that was in a block before
			if old = h.someIncluded(); old == nil {
				hook = "junk"
			}
		}
		kind += "-hook-" + hook
		if hook == "junk" {
			data = []byte("not a transaction")
		} else if old != nil {
			data = old.Bytes
		} else {
			if r.Intn(2) == 0 {
				to = u.Eth
			}
			dst := h.users[r.Intn(len(h.users))]
			send := func(n int64) (sdk.Msg, func(l *Ledger) bool) {
				cs := sdk.NewCoins(verifkit.Coin("uusdc", n))
				return banktypes.NewMsgSend(u.Acc, dst.Acc, cs), func(l *Ledger) bool { return h.bankMove(l, u.Eth, dst.Acc, cs) }
			}
			var msgs []sdk.Msg
			var aps []func(l *Ledger) bool
			add := func(n int64) {
				m, f := send(n)
				msgs, aps = append(msgs, m), append(aps, f)
			}
			add(int64(1 + r.Intn(50)))
			if hook == "fail" || hook == "partial" {
				add(1 << 60)
			}
			if hook == "fail" {
				msgs, aps = msgs[1:], aps[1:]
			}
			n := h.seq(u)
			if hook != "badsig" {
				h.takeSeq(u)
				h.hookSigner(u)
				hookBy = u
			}
			data = h.c.Cosmos(verifkit.CosmosTx{Msgs: msgs, Signers: []*verifkit.Account{u}, Seqs: []uint64{n}, Gas: 3_000_000})
			if hook == "badsig" {
				data = flipSig(h.c, data)
			}
			if hook == "ok" {
				hookApply = func(l *Ledger) bool {
					for _, f := range aps {
						if !f(l) {
							return false
						}
					}
					return true
				}
			}
		}
	}
	m := opchildtypes.NewMsgFinalizeTokenDeposit(h.c.Val.Bech(), h.users[0].Bech(), h.cosmosOf(to).String(), sdk.NewCoin(d, math.NewIntFromBigInt(amt)), seq, 1, base, data)
	tx := h.cosmosTx(h.c.Val, []sdk.Msg{m}, 9_000_000, kind, func(l *Ledger) bool {
		switch res {
		case "noop":
			return true
		case "fail":
			return false
		}
		if l.blocked[to] && amt.Sign() > 0 {
			return true // handed back by a withdrawal
		}
		s := l.Snap()
		if amt.Sign() > 0 {
			l.mint(d, to, amt)
		}
		if hook != "" && (hookApply == nil || !hookApply(l)) {
			l.Restore(s) // reclaimed and handed back by a withdrawal
		}
		return true
	})
	if hookBy != nil && !(h.L.blocked[to] && amt.Sign() > 0) { // handed back at once, the hook does not run
		tx.Hook, tx.HookSigner = data, hookBy
	}
	tx.Bridge = &bridgeDep{denom: d, base: base, to: h.cosmosOf(to).String(), amt: amt, seq: seq, hook: hook, res: res, blocked: h.L.blocked[to]}
	tx.After = func(*abci.ExecTxResult) {
		for _, t := range h.tokens {
			if t.denom == d {
				return
			}
		}
		if a, err := evmtypes.DenomToContractAddr(h.c.QCtx(), h.c.App.EVMKeeper, d); err == nil {
			h.tokens = append(h.tokens, token{d, a, "bridge"})
			h.L.erc20[a] = d
		}
	}
	return tx
}

// someIncluded is an earlier transaction whose signature was used up.
func (h *Hist) someIncluded() *TxMeta {
	for i := 0; i < 10 && len(h.All) > 0; i++ {
		m := h.All[h.rng.Intn(len(h.All))]
		if m.Expect != xReject {
			return m
		}
	}
	return nil
}

// hooker is an account that signed nothing in this block yet.
func (h *Hist) hooker() *verifkit.Account {
	for _, u := range h.hookers {
		if !h.dirty[string(u.Acc)] {
			return u
		}
	}
	return nil
}

// hookSigner: the signature in a bridge hook advances the sequence of its signer.
func (h *Hist) hookSigner(u *verifkit.Account) { h.dirty[string(u.Acc)] = true }

// Run executes one block and lets the ledger follow.
func (h *Hist) Run(txs []*TxMeta) bool {
	var bz [][]byte
	for _, m := range txs {
		bz = append(bz, m.Bytes)
	}
	res := h.c.Block(bz...)
	if res == nil {
		return false
	}
	h.broken = map[string]bool{}
	for i, m := range txs {
		m.Res, m.Height, m.Index = res.TxResults[i], h.c.Height, i
		h.settle(m)
	}
	for _, m := range txs {
		if m.Res.Code == 0 && m.After != nil {
			m.After(m.Res)
		}
	}
	h.Blocks = append(h.Blocks, txs)
	h.All = append(h.All, txs...)
	h.seqs = map[string]uint64{}
	h.dirty = map[string]bool{}
	return true
}

func (h *Hist) settle(m *TxMeta) {
	l := h.L
	if m.Expect == xReject {
		return
	}
	for _, a := range m.Signers {
		if h.broken[string(a.Acc)] {
			m.Expect = xReject
			for _, b := range m.Signers {
				h.broken[string(b.Acc)] = true
			}
			return
		}
	}
	s0 := l.Snap()
	for _, c := range m.Fee {
		if !l.move(c.Denom, m.Payer, collectorAddr, c.Amount.BigInt()) {
			l.Restore(s0)
			m.Expect = xReject
			for _, a := range m.Signers {
				h.broken[string(a.Acc)] = true // their later transactions come too early now
			}
			return
		}
	}
	s := l.Snap()
	if m.Apply != nil {
		m.Predicted = predict(l, m.Apply)
	}
	ok := m.Res.Code == 0
	if !ok {
		l.Restore(s)
		return
	}
	if m.IsEth() {
		left := m.Res.GasWanted - m.Res.GasUsed
		price := math.LegacyNewDecFromInt(m.Fee.AmountOf(verifkit.FeeDenom)).QuoTruncate(math.LegacyNewDec(int64(m.Gas)))
		g := h.refund.MulInt64(left).TruncateInt()
		back := price.MulInt(g).TruncateInt()
		l.move(verifkit.FeeDenom, collectorAddr, m.Payer, back.BigInt())
	}
}

// GenBlock makes up to n random transactions.
func (h *Hist) GenBlock(n int) []*TxMeta {
	var txs []*TxMeta
	for i := 0; i < n; i++ {
		if m := h.Gen(); m != nil {
			txs = append(txs, m)
		}
	}
	return txs
}

// Mispredicted reports a transaction whose outcome is not the ledger's.
func (m *TxMeta) Mispredicted() string {
	ok := m.Res.Code == 0
	switch m.Expect {
	case xReject, xFail:
		if ok {
			return "accepted"
		}
	case xModel:
		if ok && !m.Predicted {
			return "succeeded"
		}
		if !ok && m.Predicted {
			return "failed"
		}
	case xLoose:
		if ok && !m.Predicted {
			return "succeeded"
		}
	}
	return ""
}

func mustPackCtor(args ...any) []byte {
	a := mustABI(initia_erc20.InitiaErc20MetaData.GetAbi())
	bz, err := a.Pack("", args...)
	if err != nil {
		panic(err)
	}
	return bz
}

// flipSig damages the signature of an encoded cosmos tx.
func flipSig(c *verifkit.Chain, bz []byte) []byte {
	out := append([]byte{}, bz...)
	out[len(out)-5] ^= 0x40
	return out
}

// Balances compares the whole ledger with the chain.
func (h *Hist) Compare(ctx sdk.Context, report func(sig, format string, a ...any)) int {
	n := 0
	k := h.c.App.EVMKeeper.ERC20Keeper()
	for _, d := range h.L.denoms() {
		sup, err := k.GetSupply(ctx, d)
		if err != nil {
			if h.L.Sup(d).Sign() != 0 {
				report("supply", "supply of %s: %v", d, err)
			}
			continue
		}
		if sup.BigInt().Cmp(h.L.Sup(d)) != 0 {
			report("supply", "supply of %s is %s, want %s", d, sup, h.L.Sup(d))
		}
		sum := new(big.Int)
		for _, a := range h.L.holders() {
			b, err := k.GetBalance(ctx, a.Bytes(), d)
			if err != nil {
				report("balance", "balance of %s in %s: %v", a, d, err)
				continue
			}
			n++
			sum.Add(sum, b.BigInt())
			if b.BigInt().Cmp(h.L.Bal(d, a)) != 0 {
				report("balance", "balance of %s (%s) in %s is %s, want %s", a, h.nameOf(a), d, b, h.L.Bal(d, a))
			}
		}
		if sum.Cmp(sup.BigInt()) != 0 {
			report("sum", "the balances of %s add up to %s, supply is %s", d, sum, sup)
		}
	}
	return n
}

func (h *Hist) nameOf(a common.Address) string {
	switch {
	case a == collectorAddr:
		return "fee collector"
	case a == opchildAddr:
		return "opchild"
	case a == h.long.Eth:
		return "long account"
	}
	for _, u := range h.users {
		if u.Eth == a {
			return u.Name
		}
	}
	for i, u := range h.puppets {
		if u == a {
			return fmt.Sprint("puppet", i)
		}
	}
	return "other"
}
