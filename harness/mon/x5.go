package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	gomath "math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["X05"] = monX05 }

// snap is what was true after a block, read when it was the latest.
type snap struct {
	height  int64
	time    int64
	hash    common.Hash
	denom   string
	dec     uint8
	baseFee *big.Int
	gasUsed uint64
	who     map[common.Address]*snapAcc
	views   map[string][]byte // token, holder: balance
	blk     *rpcBlock5
	rcpts   []rpcRcpt5
}

type snapAcc struct {
	bal   *big.Int // base units of the fee token
	nonce uint64
	code  []byte
	slots map[common.Hash]common.Hash
}

type rpcBlock5 struct {
	Number        *hexutil.Big
	Hash          common.Hash
	Timestamp     hexutil.Uint64
	GasLimit      hexutil.Uint64
	GasUsed       hexutil.Uint64
	BaseFeePerGas *hexutil.Big
	Transactions  []rpcTx5
}

type rpcTx5 struct {
	Hash                 common.Hash
	Type                 hexutil.Uint64
	GasPrice             *hexutil.Big
	MaxFeePerGas         *hexutil.Big
	MaxPriorityFeePerGas *hexutil.Big
}

type rpcRcpt5 struct {
	TransactionHash common.Hash
	GasUsed         hexutil.Uint64
}

type x5 struct {
	x     *hrun
	n     *verifkit.Node
	snaps []*snap // by height, from first
	first int64
	addrs []common.Address
	slots []common.Hash
	env   common.Address
}

func monX05(r *R) {
	r.Rule = "distinct = (method, kind of account, way of naming the block, how far back, shape of the answer)"
	r.hists("state", 12, 300, &watch{blocks: 9, per: 9, cfg: func(rng *rand.Rand, c *verifkit.Config) {
		c.GasPrice = []string{"", "", "0.15", "0.0023", "2.5", "2"}[rng.Intn(6)]
		c.Indexer = true
		if rng.Intn(3) == 0 {
			c.InitialHeight = 1 + int64(rng.Intn(40))
		}
		if rng.Intn(3) == 0 {
			c.MaxGas = 60_000_000
		}
	}, start: func(x *hrun) {
		s := &x5{x: x, n: x.c.NewNode(nil), first: x.c.Blocks[0].Height}
		p := newProbes(x)
		s.env = p.env
		x.state["p"], x.state["s"] = p, s
		for _, u := range x.users {
			s.addrs = append(s.addrs, u.Eth)
		}
		s.addrs = append(s.addrs, x.puppets...)
		s.addrs = append(s.addrs, x.factory, collectorAddr, p.env, evmtypes.NullAddress, common.HexToAddress("0xf1"))
		for i := 1; i <= 5; i++ {
			s.addrs = append(s.addrs, common.BytesToAddress([]byte(fmt.Sprintf("fresh-%08d-------", i))))
		}
		for _, t := range x.tokens {
			s.addrs = append(s.addrs, t.addr)
		}
		for i := int64(0); i < 6; i++ {
			s.slots = append(s.slots, common.BigToHash(big.NewInt(i)))
		}
		for _, b := range x.c.Blocks {
			if b.Height == s.first || b.Height == x.c.Height || x.rng.Intn(2) == 0 {
				s.look(b.Height)
			}
		}
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta {
		s := x.state["s"].(*x5)
		if x.gp.Sign() == 0 && x.rng.Intn(4) == 0 {
			if m := s.feeSwitch(); m != nil {
				txs = append(txs, m)
			}
		}
		s.pending(txs)
		return txs
	}, block: func(x *hrun, txs []*TxMeta) {
		s := x.state["s"].(*x5)
		x.decs = 0
		s.look(x.c.Height)
		for i := 0; i < 60; i++ {
			s.ask()
		}
		s.fees()
		s.fees()
		s.callValue()
		s.price()
	}})
}

func (s *x5) bad(sig, f string, a ...any) { s.x.bad(sig, f, a...) }

// feeSwitch makes another token the fee token.
func (s *x5) feeSwitch() *TxMeta {
	x := s.x
	if x.dirty[string(x.c.Val.Acc)] {
		return nil
	}
	ps, err := x.c.App.EVMKeeper.Params.Get(x.c.QCtx())
	must(err)
	ps.FeeDenom = x.pickTok().denom
	if x.rng.Intn(3) == 0 {
		ps.FeeDenom = verifkit.FeeDenom
	}
	m := x.adminTx(&evmtypes.MsgUpdateParams{Authority: authorityAddr(), Params: ps})
	m.Kind = "feeswitch"
	m.Apply = yes
	return m
}

// look records what is true after a block, the latest but for the first ones.
func (s *x5) look(height int64) {
	x, c := s.x, s.x.c
	ctx, err := c.App.CreateQueryContext(height, false)
	must(err)
	if height == c.Height {
		ctx = c.QCtx()
	}
	rec := c.Blocks[height-s.first]
	p, err := c.App.EVMKeeper.Params.Get(ctx)
	must(err)
	k := &snap{height: height, time: rec.Time.Unix(), denom: p.FeeDenom, who: map[common.Address]*snapAcc{}, views: map[string][]byte{}}
	f, err := c.App.EVMKeeper.LoadFee(ctx)
	must(err)
	k.dec = f.Decimals()
	k.baseFee, err = c.App.EVMKeeper.BaseFee(ctx)
	must(err)
	_, evm, err := c.App.EVMKeeper.CreateEVM(unlimited(ctx), common.Address{}, nil)
	must(err)
	for _, a := range s.addrs {
		sa := &snapAcc{bal: viewInt(ctx, c, f.Contract(), "balanceOf", a), code: evm.StateDB.GetCode(a), nonce: evm.StateDB.GetNonce(a), slots: map[common.Hash]common.Hash{}}
		for _, h := range s.slots {
			sa.slots[h] = evm.StateDB.GetState(a, h)
		}
		k.who[a] = sa
	}
	for _, t := range x.tokens {
		for _, a := range s.addrs[:6] {
			k.views[string(t.addr[:])+string(a[:])] = common.BigToHash(viewInt(ctx, c, t.addr, "balanceOf", a)).Bytes()
		}
	}
	for _, t := range rec.Res.TxResults {
		k.gasUsed += uint64(t.GasUsed)
	}
	if err := call(s.n, &k.blk, "eth_getBlockByNumber", hexutil.EncodeUint64(uint64(k.height)), true); err != nil || k.blk == nil {
		s.bad("block", "block %d cannot be found: %v", k.height, err)
		k.blk = &rpcBlock5{}
	}
	k.hash = k.blk.Hash
	if err := call(s.n, &k.rcpts, "eth_getBlockReceipts", hexutil.EncodeUint64(uint64(k.height))); err != nil {
		s.bad("receipts", "receipts of block %d: %v", k.height, err)
	}
	for int64(len(s.snaps)) < k.height-s.first {
		s.snaps = append(s.snaps, nil)
	}
	s.snaps = append(s.snaps, k)
	x.r.Eval(1)
	switch {
	case k.blk.BaseFeePerGas == nil || k.blk.BaseFeePerGas.ToInt().Cmp(k.baseFee) != 0:
		s.bad("base-fee", "block %d has base fee %v, not %v", k.height, k.blk.BaseFeePerGas, k.baseFee)
	case int64(k.blk.Timestamp) != k.time:
		s.bad("block-time", "block %d is of %d, not %d", k.height, k.blk.Timestamp, k.time)
	}
	if lim := c.Cfg.MaxGas; lim > 0 && uint64(k.blk.GasLimit) != uint64(lim) {
		s.bad("gas-limit", "block %d has gas limit %d, not %d", k.height, k.blk.GasLimit, lim)
	}
	if height < c.Height {
		return
	}
	var now hexutil.Uint64
	if err := call(s.n, &now, "eth_blockNumber"); err != nil || int64(now) != c.Height {
		s.bad("number", "the latest block is %d, not %d: %v", now, c.Height, err)
	}
	var gp *hexutil.Big
	if err := call(s.n, &gp, "eth_gasPrice"); err != nil || gp.ToInt().Cmp(k.baseFee) != 0 {
		s.bad("gas-price", "gas price %v, not %v: %v", gp, k.baseFee, err)
	}
	var id *hexutil.Big
	if err := call(s.n, &id, "eth_chainId"); err != nil || id.ToInt().Cmp(evmtypes.ConvertCosmosChainIDToEthereumChainID(c.Cfg.ChainID)) != 0 {
		s.bad("chain-id", "%v %v", id, err)
	}
}

// name names a block somehow.
func (s *x5) name(k *snap) (any, string) {
	n := hexutil.EncodeUint64(uint64(k.height))
	opts := []string{"number", "hash", "number-object", "hash-object"}
	if k.height == s.x.c.Height {
		opts = append(opts, "latest", "pending", "safe", "finalized", "latest", "pending")
	}
	if k.height == 1 {
		opts = append(opts, "earliest", "0x0", "earliest", "0x0")
	}
	switch o := opts[s.x.rng.Intn(len(opts))]; o {
	case "number":
		return n, o
	case "hash":
		return k.hash, o
	case "number-object":
		return map[string]any{"blockNumber": n}, o
	case "hash-object":
		return map[string]any{"blockHash": k.hash, "requireCanonical": s.x.rng.Intn(2) == 0}, o
	default:
		return o, o
	}
}

// ask asks about an account at a block.
func (s *x5) ask() {
	x, rng := s.x, s.x.rng
	var k *snap
	for k == nil {
		switch rng.Intn(3) {
		case 0:
			k = s.snaps[len(s.snaps)-1]
		default:
			k = s.snaps[rng.Intn(len(s.snaps))]
		}
	}
	at, way := s.name(k)
	unknown := false
	if rng.Intn(6) == 0 {
		unknown = true
		switch rng.Intn(4) {
		case 0:
			var h common.Hash
			rng.Read(h[:])
			at, way = h, "unknown-hash"
		case 1:
			at, way = map[string]any{"blockHash": common.BytesToHash(k.hash[:31])}, "unknown-hash"
		case 2:
			at, way = hexutil.EncodeUint64(uint64(x.c.Height+1+int64(rng.Intn(3)))), "future"
		case 3:
			at, way = hexutil.EncodeUint64(uint64(rng.Int63())), "far-future"
		}
	}
	if s.first > 1 && rng.Intn(20) == 0 {
		at, way, unknown = []string{"earliest", "0x0", "0x1", hexutil.EncodeUint64(uint64(s.first - 1))}[rng.Intn(4)], "before", true
	}
	a := s.addrs[rng.Intn(len(s.addrs))]
	who := k.who[a]
	back := x.c.Height - k.height
	if back > 3 {
		back = 4
	}
	judge := func(method string, got json.RawMessage, err error, want any, args ...any) {
		x.r.Eval(1)
		x.r.Count(fmt.Sprintf("%s_%s", method, way), 1)
		if unknown {
			if err == nil && string(got) != "null" {
				s.bad("unknown-"+method, "%s %v at %v: %s, though there is no such block (latest %d)", method, args, at, got, x.c.Height)
			}
			return
		}
		w, e := json.Marshal(want)
		must(e)
		x.r.Distinct(fmt.Sprintf("%s|%s|%s|%d|%d", method, x.nameOf(a), way, back, len(w)))
		if err != nil || !bytes.Equal(w, bytes.TrimSpace(got)) {
			s.bad(method, "%s %v at %v (block %d of %d, %s): %.300s %v, not %.300s", method, args, at, k.height, x.c.Height, x.nameOf(a), got, err, w)
		}
	}
	var got json.RawMessage
	switch rng.Intn(7) {
	case 0:
		err := call(s.n, &got, "eth_getBalance", a, at)
		judge("eth_getBalance", got, err, (*hexutil.Big)(evmtypes.ToEthersUint(k.dec, who.bal)), a)
	case 1:
		err := call(s.n, &got, "eth_getTransactionCount", a, at)
		judge("eth_getTransactionCount", got, err, hexutil.Uint64(who.nonce), a)
	case 2:
		err := call(s.n, &got, "eth_getCode", a, at)
		judge("eth_getCode", got, err, hexutil.Bytes(who.code), a)
	case 3:
		h := s.slots[rng.Intn(len(s.slots))]
		key := h.Hex()
		if rng.Intn(2) == 0 {
			key = hexutil.EncodeBig(h.Big())
		}
		err := call(s.n, &got, "eth_getStorageAt", a, key, at)
		judge("eth_getStorageAt", got, err, who.slots[h], a, key)
	case 4:
		t := x.tokens[rng.Intn(len(x.tokens))]
		h := s.addrs[rng.Intn(6)]
		if bal, ok := k.views[string(t.addr[:])+string(h[:])]; ok {
			arg := map[string]any{"to": t.addr, []string{"data", "input"}[rng.Intn(2)]: hexutil.Bytes(pack(erc20ABI, "balanceOf", h))}
			if rng.Intn(2) == 0 {
				arg["from"] = x.users[rng.Intn(len(x.users))].Eth
			}
			err := call(s.n, &got, "eth_call", arg, at)
			if len(k.who[t.addr].codeOr(nil)) > 0 {
				judge("eth_call", got, err, hexutil.Bytes(bal), t.addr, "balanceOf", h)
			}
		}
	case 5: // what the block looks like from inside
		if len(k.who[s.env].code) == 0 {
			return
		}
		err := call(s.n, &got, "eth_call", map[string]any{"from": x.users[0].Eth, "to": s.env, "data": "0x"}, at)
		var out hexutil.Bytes
		if unknown || err != nil || json.Unmarshal(got, &out) != nil || len(out) < 128 {
			judge("eth_call-env", got, err, "a result")
			return
		}
		x.r.Eval(1)
		x.r.Count("eth_call-env_"+way, 1)
		word := func(i int) *big.Int { return new(big.Int).SetBytes(out[32*i : 32*i+32]) }
		for i, w := range []*big.Int{big.NewInt(k.height), big.NewInt(k.time), evmtypes.ConvertCosmosChainIDToEthereumChainID(x.c.Cfg.ChainID), k.baseFee} {
			if word(i).Cmp(w) != 0 {
				s.bad("eth_call-env", "a contract called at %v (block %d) finds %s %v, not %v", at, k.height, []string{"number", "time", "chain id", "base fee"}[i], word(i), w)
			}
		}
	case 6: // whole blocks
		by := at
		m := "eth_getBlockByNumber"
		switch v := at.(type) {
		case map[string]any:
			return
		case common.Hash:
			by, m = v, "eth_getBlockByHash"
		}
		switch rng.Intn(3) {
		case 0:
			var b *rpcBlock5
			err := call(s.n, &b, m, by, true)
			got, _ = json.Marshal(b)
			judge(m, got, err, k.blk)
		case 1:
			m = strings.Replace(m, "getBlock", "getBlockTransactionCount", 1)
			err := call(s.n, &got, m, by)
			judge(m, got, err, hexutil.Uint64(len(k.blk.Transactions)))
		case 2:
			var rs []rpcRcpt5
			err := call(s.n, &rs, "eth_getBlockReceipts", by)
			got, _ = json.Marshal(rs)
			judge("eth_getBlockReceipts", got, err, k.rcpts)
		}
	}
}

func (a *snapAcc) codeOr(b []byte) []byte {
	if a == nil {
		return b
	}
	return a.code
}

// pending: the pending nonce counts the checked transactions.
func (s *x5) pending(txs []*TxMeta) {
	x := s.x
	next := map[common.Address]uint64{}
	for _, m := range txs {
		if len(m.Signers) != 1 || len(m.Signers[0].Acc) != 20 || x.rng.Intn(2) == 0 {
			continue
		}
		a := m.Signers[0]
		if _, ok := next[a.Eth]; !ok {
			next[a.Eth] = x.c.Seq(a.Acc)
		}
		res, err := x.c.CheckLocked(&abci.RequestCheckTx{Tx: m.Bytes, Type: abci.CheckTxType_New}, nil)
		if err == nil && res.Code == 0 {
			next[a.Eth]++
		}
	}
	for a, n := range next {
		var p, l hexutil.Uint64
		e1 := call(s.n, &p, "eth_getTransactionCount", a, "pending")
		e2 := call(s.n, &l, "eth_getTransactionCount", a, "latest")
		x.r.Eval(1)
		x.r.Count(fmt.Sprintf("pending_ahead_%v", n > uint64(l)), 1)
		if e1 != nil || e2 != nil || uint64(p) != n || uint64(l) != x.c.Seq(a.Bytes()) {
			s.bad("pending-nonce", "%s: pending %d latest %d (%v %v), not %d and %d", x.nameOf(a), p, l, e1, e2, n, x.c.Seq(a.Bytes()))
		}
	}
}

// fees compares the fee history with the blocks.
func (s *x5) fees() {
	x, rng := s.x, s.x.rng
	k := s.snaps[rng.Intn(len(s.snaps))]
	if k == nil || rng.Intn(3) == 0 {
		k = s.snaps[len(s.snaps)-1]
	}
	var at any = hexutil.EncodeUint64(uint64(k.height))
	if k.height == x.c.Height && rng.Intn(2) == 0 {
		at = []string{"latest", "pending", "safe"}[rng.Intn(3)]
	}
	var pct []float64
	for i := 0; i < rng.Intn(5); i++ {
		pct = append(pct, []float64{0, 1, 25, 50, 75, 99.5, 100}[rng.Intn(7)])
	}
	if len(k.rcpts) > 1 && rng.Intn(2) == 0 { // where the gas of some transactions adds up exactly
		pct = append(pct, k.edges(rng)...)
	}
	sort.Float64s(pct)
	for i := 1; i < len(pct); i++ {
		if pct[i] == pct[i-1] {
			pct = pct[:i]
			break
		}
	}
	n := 1 + rng.Intn(6)
	if n > len(s.snaps) || int64(n) > k.height-s.first+1 {
		n = 1
	}
	var out struct {
		OldestBlock   *hexutil.Big
		BaseFeePerGas []*hexutil.Big
		GasUsedRatio  []float64
		Reward        [][]*hexutil.Big
	}
	if err := call(s.n, &out, "eth_feeHistory", hexutil.EncodeUint64(uint64(n)), at, pct); err != nil {
		s.bad("fee-history", "%d blocks to %v: %v", n, at, err)
		return
	}
	x.r.Eval(1)
	x.r.Count("fee_histories", 1)
	old := k.height + 1 - int64(n)
	if out.OldestBlock.ToInt().Int64() != old || len(out.BaseFeePerGas) != n+1 || len(out.GasUsedRatio) != n || len(pct) > 0 && len(out.Reward) != n {
		s.bad("fee-history", "%d blocks to %v (%d) %v: %+v", n, at, k.height, pct, out)
		return
	}
	if w := k.baseFee; out.BaseFeePerGas[n].ToInt().Cmp(w) != 0 && k.height == x.c.Height {
		s.bad("fee-history-next", "base fee after %d is %v, not %v", k.height, out.BaseFeePerGas[n], w)
	}
	for i := 0; i < n; i++ {
		b := s.snaps[old+int64(i)-s.first]
		if b == nil {
			continue
		}
		if out.BaseFeePerGas[i].ToInt().Cmp(b.blk.BaseFeePerGas.ToInt()) != 0 {
			s.bad("fee-history-base", "base fee of %d is %v, not %v", b.height, out.BaseFeePerGas[i], b.blk.BaseFeePerGas)
		}
		if r := float64(b.blk.GasUsed) / float64(b.blk.GasLimit); gomath.Abs(r-out.GasUsedRatio[i]) > 1e-9 {
			s.bad("fee-history-ratio", "gas used ratio of %d is %v, not %v", b.height, out.GasUsedRatio[i], r)
		}
		for j, p := range pct {
			if w := b.reward(p); w.Cmp(out.Reward[i][j].ToInt()) != 0 {
				s.bad("fee-history-reward", "reward of %d at %v%% is %v, not %v", b.height, p, out.Reward[i][j], w)
			}
			x.r.Count("rewards", 1)
		}
	}
}

type tip struct {
	gas uint64
	tip *big.Int
}

// tips are the transactions of a block by what they pay above the base fee.
func (k *snap) tips() (l []tip) {
	base := k.blk.BaseFeePerGas.ToInt()
	for i, t := range k.blk.Transactions {
		cap, pr := t.GasPrice.ToInt(), t.GasPrice.ToInt()
		if t.Type == 2 {
			cap, pr = t.MaxFeePerGas.ToInt(), t.MaxPriorityFeePerGas.ToInt()
		}
		v := new(big.Int).Sub(cap, base)
		if pr.Cmp(v) < 0 {
			v = pr
		}
		l = append(l, tip{uint64(k.rcpts[i].GasUsed), v})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].tip.Cmp(l[j].tip) < 0 })
	return l
}

// reward is the tip at a percentile of the block's gas.
func (k *snap) reward(p float64) *big.Int {
	l := k.tips()
	if len(l) == 0 {
		return new(big.Int)
	}
	at := uint64(float64(k.blk.GasUsed) * p / 100)
	sum := l[0].gas
	i := 0
	for sum < at && i < len(l)-1 {
		i++
		sum += l[i].gas
	}
	return l[i].tip
}

// edges are percentiles at which the gas of the cheapest transactions is just reached.
func (k *snap) edges(rng *rand.Rand) (out []float64) {
	order := k.tips()
	sum := uint64(0)
	for _, t := range order[:len(order)-1] {
		sum += t.gas
		p := float64(sum) * 100 / float64(k.blk.GasUsed)
		for i := 0; i < 3 && p <= 100; i++ {
			if uint64(float64(k.blk.GasUsed)*p/100) == sum {
				if rng.Intn(2) == 0 {
					out = append(out, p)
				}
				break
			}
			p = gomath.Nextafter(p, 101)
		}
	}
	return out
}

// price compares what the node asks for gas with the price of the chain.
func (s *x5) price() {
	k := s.snaps[len(s.snaps)-1]
	s.x.r.Count("base_fee_"+k.baseFee.String(), 1)
	var p, tip hexutil.Big
	e1, e2 := call(s.n, &p, "eth_gasPrice"), call(s.n, &tip, "eth_maxPriorityFeePerGas")
	s.x.r.Eval(1)
	if e1 != nil || e2 != nil || p.ToInt().Cmp(k.baseFee) != 0 || tip.ToInt().Sign() != 0 {
		s.bad("gas-price", "eth_gasPrice is %v, eth_maxPriorityFeePerGas %v (%v %v), the price is %s", p.ToInt(), tip.ToInt(), e1, e2, k.baseFee)
	}
}

// callValue asks a contract for the value a call came with.
func (s *x5) callValue() {
	x := s.x
	k := s.snaps[len(s.snaps)-1]
	u := x.users[x.rng.Intn(len(x.users))]
	has := k.who[u.Eth].bal
	if k == nil || has == nil || has.Sign() == 0 || k.dec > 77 {
		return
	}
	units := new(big.Int).Rand(x.rng, has)
	if x.rng.Intn(3) == 0 {
		units.SetInt64(int64(x.rng.Intn(3)))
	}
	if k.dec > 18 { // what has no name in wei is not sent
		units.Sub(units, new(big.Int).Mod(units, scaleOf(int(k.dec))))
	}
	wei := new(big.Int).Mul(units, scaleOf(int(k.dec)))
	if k.dec > 18 {
		wei = new(big.Int).Quo(units, scaleOf(int(k.dec)))
	}
	if units.Cmp(has) > 0 {
		return
	}
	arg := map[string]any{"from": u.Eth, "data": "0x345f5260205ff3", "value": (*hexutil.Big)(wei)}
	var ret hexutil.Bytes
	err := call(s.n, &ret, "eth_call", arg, "latest")
	x.r.Eval(1)
	x.r.Count("call_values", 1)
	if err != nil || new(big.Int).SetBytes(ret).Cmp(units) != 0 {
		s.bad("call-value", "eth_call of %s with %s wei of a token of %d decimals tells a value of %x (%v), not %s", x.nameOf(u.Eth), wei, k.dec, ret, err, units)
	}
	var g hexutil.Uint64
	if err := call(s.n, &g, "eth_estimateGas", arg); err != nil || g == 0 {
		s.bad("estimate-value", "eth_estimateGas of %s with %s wei of a token of %d decimals: %d %v", x.nameOf(u.Eth), wei, k.dec, g, err)
	}
}
