package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	dbm "github.com/cosmos/cosmos-db"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	"github.com/ethereum/go-ethereum/core/vm"

	evmconfig "github.com/initia-labs/minievm/x/evm/config"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["X01"] = monX01 }

// x1 judges the index.
type x1 struct {
	x    *hrun
	book *ethBook
	n    *verifkit.Node
	// early account and what it still has to send
	acc  *verifkit.Account
	held []*TxMeta
	// what was on chain before it was rolled back
	gone, goneBlocks []common.Hash
}

func (s *x1) reserve() { s.x.dirty[string(s.acc.Acc)] = true }

func monX01(r *R) {
	r.Rule = "distinct = answers of the index crossed with kind, type and outcome of the transaction asked for, and the node's restarts and crash points"
	r.hists("index", 16, 400, &watch{blocks: 7, per: 12, cfg: func(rng *rand.Rand, c *verifkit.Config) {
		c.Indexer = true
		c.DB, c.IndexerDB, c.KVIndexerDB = dbm.NewMemDB(), dbm.NewMemDB(), dbm.NewMemDB()
		ec := evmconfig.DefaultEVMConfig()
		ec.IndexerCacheSize = []int{1, 2, 8}[rng.Intn(3)]
		c.EVMConfig = &ec
	}, start: func(x *hrun) {
		s := &x1{x: x, book: newEthBook(), acc: x.users[len(x.users)-1], n: x.c.NewNode(nil)}
		x.state["s"] = s
		if x.rng.Intn(6) == 0 { // many transactions in one block
			var txs []*TxMeta
			for i := 0; i < 257+x.rng.Intn(30); i++ {
				txs = append(txs, s.transfer("many"))
			}
			x.step(txs)
		}
		s.reserve()
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta {
		return x.state["s"].(*x1).weave(txs)
	}, block: func(x *hrun, txs []*TxMeta) {
		s := x.state["s"].(*x1)
		s.reserve()
		s.book.sync(x)
		s.check(s.book.last())
		if len(s.book.blocks) > 3 {
			s.check(s.book.blocks[x.rng.Intn(len(s.book.blocks))])
		}
		s.absent()
		if x.rng.Intn(3) == 0 { // a block of nothing
			x.c.Block()
			if x.c.HaltErr != nil {
				s.bad("halt", "an empty block: %v", x.c.HaltErr)
				return
			}
			s.book.sync(x)
			s.check(s.book.last())
			x.r.Count("empty_blocks", 1)
		}
		switch x.rng.Intn(6) {
		case 0:
			x.reopen(nil)
			s.n = x.c.NewNode(nil)
			x.r.Count("restarts", 1)
			s.check(s.book.last())
			s.check(s.book.blocks[0])
		case 1:
			s.crash()
		case 2:
			s.rollback()
		}
		s.reserve()
	}, end: func(x *hrun) {
		s := x.state["s"].(*x1)
		for _, k := range s.book.blocks {
			s.check(k)
		}
	}})
}

// weave puts transactions in that come too early or twice.
func (s *x1) weave(txs []*TxMeta) []*TxMeta {
	x := s.x
	copyOf := func(m *TxMeta) *TxMeta {
		c := *m
		c.Expect, c.Apply, c.After = xReject, nil, nil
		c.Kind += "-again"
		return &c
	}
	out := append([]*TxMeta{}, s.held...)
	s.held = nil
	for _, m := range txs {
		out = append(out, m)
		if m.Eth != nil && m.Expect == xModel && x.rng.Intn(12) == 0 {
			out = append(out, copyOf(m))
		}
	}
	if len(x.All) > 0 && x.rng.Intn(3) == 0 { // a transaction of an earlier block once more
		if m := x.All[x.rng.Intn(len(x.All))]; m.Eth != nil && m.Expect != xReject {
			out = append(out, copyOf(m))
		}
	}
	if len(out) > 0 && out[0].Signers[0] == s.acc {
		return out // the held ones were sent just now
	}
	if x.rng.Intn(2) == 0 {
		// contract creations, also such that fail, log or leave no code
		log := verifkit.NewAsm().Push(32).Push(7).Push(0).Op(vm.MSTORE).Push(0xabcd).Push(32).Push(0).Op(vm.LOG1)
		codes := [][]byte{
			verifkit.NewAsm().Push(0).Push(0).Op(vm.REVERT).Bytes(),
			{byte(vm.INVALID)},
			{},
			log.Bytes(),
			append(log.Bytes(), byte(vm.INVALID)),
		}
		i := x.rng.Intn(len(codes))
		m := x.ethTx(s.acc, nil, codes[i], nil, 1_000_000, fmt.Sprintf("create-%d", i), func(l *Ledger) bool { return true })
		m.Expect = xLoose
		return append(out, m)
	}
	a, b := s.transfer("early"), s.transfer("early")
	s.held = []*TxMeta{a, b}
	return append(out, copyOf(b))
}

func (s *x1) transfer(kind string) *TxMeta {
	x := s.x
	to := x.pickTo()
	return x.ethTx(s.acc, addrp(x.tokenAddr("uusdc")), pack(erc20ABI, "transfer", to, big.NewInt(3)), nil, 1_000_000, kind,
		func(l *Ledger) bool { return l.tokenCall("uusdc", "transfer", s.acc.Eth, []any{to, big.NewInt(3)}) })
}

// crash stops the node somewhere around the commit of a block and runs the block again.
func (s *x1) crash() {
	x := s.x
	rng := x.rng
	app, idx := &failDB{DB: x.c.Cfg.DB}, &failDB{DB: x.c.Cfg.IndexerDB}
	old := x.c
	x.reopen(func(c *verifkit.Config) { c.DB, c.IndexerDB = app, idx })
	txs := x.GenBlock(8)
	var bz [][]byte
	for _, m := range txs {
		bz = append(bz, m.Bytes)
	}
	// which database stops taking writes when
	stage := rng.Intn(3)
	if stage == 0 { // within the execution of the block
		idx.after(rng.Intn(30))
		app.after(0)
	}
	h, now := x.c.Height+1, x.c.Now.Add(x.c.BlockGap)
	res := x.c.FinalizeAt(h, now, verifkit.HeaderHash(x.c.Cfg.ChainID, h), bz)
	if res != nil {
		switch stage {
		case 1: // before or within the commit
			app.after(rng.Intn(60))
			idx.after(0)
		case 2: // the state is written, the index has got the rest of its time
			idx.after(rng.Intn(20))
		}
		x.c.Commit()
	}
	app.after(0)
	idx.after(0)
	x.reopen(func(c *verifkit.Config) { c.DB, c.IndexerDB = old.Cfg.DB, old.Cfg.IndexerDB })
	done := x.c.Height >= h
	x.r.Count(fmt.Sprintf("crash_stage%d_committed=%v", stage, done), 1)
	x.r.Distinct(fmt.Sprintf("crash|%d|%v", stage, done))
	s.n = x.c.NewNode(nil)
	// the consensus engine hands the block over once more, unless it was committed
	if done {
		x.broken = map[string]bool{}
		x.c.Now = now
		x.c.Blocks = append(x.c.Blocks[:h-1], verifkit.BlockRecord{Height: h, Txs: bz, Res: res, Time: now})
		for i, m := range txs {
			m.Res, m.Height, m.Index = res.TxResults[i], h, i
			x.settle(m)
		}
		for _, m := range txs {
			if m.Res.Code == 0 && m.After != nil {
				m.After(m.Res)
			}
		}
		x.Blocks = append(x.Blocks, txs)
		x.All = append(x.All, txs...)
		x.seqs, x.dirty = map[string]uint64{}, map[string]bool{}
	} else if !x.Run(txs) {
		x.bad("halt", "%v", x.c.HaltErr)
		return
	}
	s.book.sync(x)
	s.check(s.book.last())
}

func (s *x1) bad(sig, f string, a ...any) { s.x.bad(sig, f, a...) }

// ask returns the answer or reports.
func (s *x1) ask(out any, method string, args ...any) bool {
	s.x.r.Eval(1)
	s.x.r.Count(method, 1)
	if err := call(s.n, out, method, args...); err != nil {
		s.bad("error-"+method, "%s %v: %v", method, args, err)
		return false
	}
	return true
}

type rpcBlock struct {
	Number           *hexutil.Big
	Hash             common.Hash
	ParentHash       common.Hash
	LogsBloom        hexutil.Bytes
	Timestamp        hexutil.Uint64
	TransactionsRoot common.Hash
	Transactions     json.RawMessage
}

// check asks for everything about one block.
func (s *x1) check(k *ethBlk) {
	x := s.x
	num := hexutil.EncodeUint64(uint64(k.height))
	var b *rpcBlock
	if !s.ask(&b, "eth_getBlockByNumber", num, true) {
		return
	}
	if b == nil {
		s.bad("block-missing", "block %d cannot be found by its number", k.height)
		return
	}
	if k.hash == (common.Hash{}) {
		s.book.learn(k, b.Hash)
	}
	var parent common.Hash
	if k.height > 1 {
		parent = s.book.blocks[k.height-2].hash
	}
	switch {
	case b.Number == nil || b.Number.ToInt().Int64() != k.height:
		s.bad("block-number", "block %d answers as %v", k.height, b.Number)
	case b.Hash != k.hash:
		s.bad("block-hash", "block %d has hash %s, was %s", k.height, b.Hash, k.hash)
	case int64(b.Timestamp) != k.time.Unix():
		s.bad("block-time", "block %d is of %d, answered %d", k.height, k.time.Unix(), b.Timestamp)
	case k.height > 1 && parent != (common.Hash{}) && b.ParentHash != parent:
		s.bad("block-parent", "parent of block %d is %s, answered %s", k.height, parent, b.ParentHash)
	case !bytes.Equal(b.LogsBloom, k.bloom.Bytes()):
		s.bad("block-bloom", "bloom of block %d does not match its %d logs", k.height, len(k.logs))
	case b.TransactionsRoot != k.txRoot:
		s.bad("block-txroot", "block %d: transactions root is not that of its %d Ethereum transactions", k.height, len(k.txs))
	}
	var full []json.RawMessage
	must(json.Unmarshal(b.Transactions, &full))
	if len(full) != len(k.txs) {
		s.bad("block-txs", "block %d has %d Ethereum transactions, listed are %d", k.height, len(k.txs), len(full))
		return
	}
	for i, e := range k.txs {
		s.tx(e, full[i], "eth_getBlockByNumber")
	}
	var b2 *rpcBlock
	if s.ask(&b2, "eth_getBlockByHash", k.hash, false) {
		var hs []common.Hash
		switch {
		case b2 == nil:
			s.bad("block-missing-hash", "block %d cannot be found by its hash %s", k.height, k.hash)
		case b2.Number.ToInt().Int64() != k.height || b2.Hash != k.hash:
			s.bad("block-by-hash", "asked for block %d by hash, got %v", k.height, b2.Number)
		default:
			must(json.Unmarshal(b2.Transactions, &hs))
			for i, e := range k.txs {
				if i >= len(hs) || hs[i] != e.tx.Hash() {
					s.bad("block-hashes", "block %d by hash: transaction %d is not listed as %s", k.height, i, e.tx.Hash())
				}
			}
			if len(hs) != len(k.txs) {
				s.bad("block-hashes", "block %d by hash lists %d transactions, not %d", k.height, len(hs), len(k.txs))
			}
		}
	}
	for _, q := range []struct {
		m string
		a any
	}{{"eth_getBlockTransactionCountByNumber", num}, {"eth_getBlockTransactionCountByHash", k.hash}} {
		var n *hexutil.Uint
		if s.ask(&n, q.m, q.a) && (n == nil || int(*n) != len(k.txs)) {
			s.bad("tx-count", "%s of block %d is %v, not %d", q.m, k.height, n, len(k.txs))
		}
	}
	var list []json.RawMessage
	if s.ask(&list, "eth_getBlockReceipts", num) {
		if len(list) != len(k.txs) {
			s.bad("block-receipts", "block %d: %d receipts for %d transactions", k.height, len(list), len(k.txs))
		} else {
			for i, e := range k.txs {
				s.receipt(e, list[i], "eth_getBlockReceipts")
			}
		}
	}
	for _, e := range k.txs {
		var raw json.RawMessage
		h := e.tx.Hash()
		want, err := e.tx.MarshalBinary()
		must(err)
		if s.ask(&raw, "eth_getTransactionByHash", h) {
			s.tx(e, raw, "eth_getTransactionByHash")
		}
		raw = nil
		if s.ask(&raw, "eth_getTransactionReceipt", h) {
			s.receipt(e, raw, "eth_getTransactionReceipt")
		}
		raw = nil
		at := hexutil.EncodeUint64(uint64(e.idx))
		if x.rng.Intn(2) == 0 {
			if s.ask(&raw, "eth_getTransactionByBlockHashAndIndex", k.hash, at) {
				s.tx(e, raw, "eth_getTransactionByBlockHashAndIndex")
			}
		} else if s.ask(&raw, "eth_getTransactionByBlockNumberAndIndex", num, at) {
			s.tx(e, raw, "eth_getTransactionByBlockNumberAndIndex")
		}
		var bz hexutil.Bytes
		m, arg := "eth_getRawTransactionByHash", []any{h}
		if x.rng.Intn(2) == 0 {
			m, arg = "eth_getRawTransactionByBlockHashAndIndex", []any{k.hash, at}
		}
		if s.ask(&bz, m, arg...) && !bytes.Equal(bz, want) {
			s.bad("raw", "%s of transaction %d of block %d: %x, not the signed bytes %x", m, e.idx, k.height, []byte(bz), want)
		}
		var ch string
		if s.ask(&ch, "cosmos_cosmosTxHashByTxHash", h) && ch != common.Bytes2Hex(e.cosmos) {
			s.bad("cosmos-hash", "cosmos hash of transaction %d of block %d: %s, not %x", e.idx, k.height, ch, e.cosmos)
		}
		var eh common.Hash
		if s.ask(&eh, "cosmos_txHashByCosmosTxHash", common.Bytes2Hex(e.cosmos)) && eh != h {
			s.bad("eth-hash", "Ethereum hash of transaction %d of block %d: %s, not %s", e.idx, k.height, eh, h)
		}
		x.r.Distinct(fmt.Sprintf("%s|%d|%v|%v|%d", e.m.Kind, e.tx.Type(), e.ok, e.contract != nil, min(len(e.logs), 3)))
	}
	// there is nothing behind the last one
	for _, at := range []int{len(k.txs), len(k.txs) + 1 + x.rng.Intn(1000)} {
		var raw json.RawMessage
		if s.ask(&raw, "eth_getTransactionByBlockNumberAndIndex", num, hexutil.EncodeUint64(uint64(at))) && raw != nil && string(raw) != "null" {
			s.bad("phantom", "block %d has %d transactions but there is one at %d: %s", k.height, len(k.txs), at, raw)
		}
	}
}

func (s *x1) tx(e *ethRec, raw json.RawMessage, by string) {
	where := fmt.Sprintf("%s of transaction %d of block %d (%s, type %d)", by, e.idx, e.blk.height, e.m.Kind, e.tx.Type())
	if raw == nil || string(raw) == "null" {
		s.bad("tx-missing", "%s: not found", where)
		return
	}
	var t coretypes.Transaction
	if err := json.Unmarshal(raw, &t); err != nil {
		s.bad("tx-json", "%s: %v", where, err)
		return
	}
	if t.Hash() != e.tx.Hash() {
		s.bad("tx-content", "%s: %s", where, raw)
		return
	}
	var f struct {
		BlockHash        *common.Hash
		BlockNumber      *hexutil.Big
		From             common.Address
		Hash             common.Hash
		TransactionIndex *hexutil.Uint64
		GasPrice         *hexutil.Big
	}
	must(json.Unmarshal(raw, &f))
	switch {
	case f.Hash != e.tx.Hash():
		s.bad("tx-hash", "%s: hash %s", where, f.Hash)
	case f.From != e.from:
		s.bad("tx-from", "%s: from %s, not %s", where, f.From, e.from)
	case f.BlockHash == nil || *f.BlockHash != e.blk.hash || f.BlockNumber == nil || f.BlockNumber.ToInt().Int64() != e.blk.height:
		s.bad("tx-block", "%s: block %v %v", where, f.BlockNumber, f.BlockHash)
	case f.TransactionIndex == nil || int(*f.TransactionIndex) != e.idx:
		s.bad("tx-index", "%s: index %v", where, f.TransactionIndex)
	case f.GasPrice == nil || f.GasPrice.ToInt().Cmp(e.tx.GasFeeCap()) != 0:
		s.bad("tx-price", "%s: gas price %v, paid is %s", where, f.GasPrice, e.tx.GasFeeCap())
	}
}

func (s *x1) receipt(e *ethRec, raw json.RawMessage, by string) {
	where := fmt.Sprintf("%s of transaction %d of block %d (%s, type %d)", by, e.idx, e.blk.height, e.m.Kind, e.tx.Type())
	if raw == nil || string(raw) == "null" {
		s.bad("receipt-missing", "%s: no receipt", where)
		return
	}
	var f struct {
		BlockHash         common.Hash
		BlockNumber       hexutil.Uint64
		TransactionHash   common.Hash
		TransactionIndex  hexutil.Uint64
		From              common.Address
		To                *common.Address
		GasUsed           hexutil.Uint64
		CumulativeGasUsed hexutil.Uint64
		ContractAddress   *common.Address
		Logs              []*coretypes.Log
		LogsBloom         coretypes.Bloom
		Type              hexutil.Uint64
		EffectiveGasPrice *hexutil.Big
		Status            *hexutil.Uint64
	}
	if err := json.Unmarshal(raw, &f); err != nil {
		s.bad("receipt-json", "%s: %v", where, err)
		return
	}
	var bloom coretypes.Bloom
	for _, l := range e.logs {
		bloom.Add(l.Address.Bytes())
		for _, t := range l.Topics {
			bloom.Add(t.Bytes())
		}
	}
	d := sameLogs(e.logs, f.Logs)
	switch {
	case f.Status == nil || (*f.Status == 1) != e.ok:
		s.bad("receipt-status", "%s: status %v, code was %d", where, f.Status, e.m.Res.Code)
	case uint64(f.GasUsed) != e.gas:
		s.bad("receipt-gas", "%s: gas used %d, not %d", where, f.GasUsed, e.gas)
	case uint64(f.CumulativeGasUsed) != e.cum:
		s.bad("receipt-cumulative", "%s: cumulative gas %d, not %d", where, f.CumulativeGasUsed, e.cum)
	case f.TransactionHash != e.tx.Hash() || int(f.TransactionIndex) != e.idx:
		s.bad("receipt-tx", "%s: of transaction %s at %d", where, f.TransactionHash, f.TransactionIndex)
	case f.BlockHash != e.blk.hash || int64(f.BlockNumber) != e.blk.height:
		s.bad("receipt-block", "%s: block %d %s", where, f.BlockNumber, f.BlockHash)
	case f.From != e.from || fmt.Sprint(f.To) != fmt.Sprint(e.tx.To()):
		s.bad("receipt-parties", "%s: from %s to %v", where, f.From, f.To)
	case fmt.Sprint(f.ContractAddress) != fmt.Sprint(e.contract):
		s.bad("receipt-contract", "%s: contract %v, not %v", where, f.ContractAddress, e.contract)
	case uint64(f.Type) != uint64(e.tx.Type()):
		s.bad("receipt-type", "%s: type %d", where, f.Type)
	case f.EffectiveGasPrice == nil || f.EffectiveGasPrice.ToInt().Cmp(e.tx.GasFeeCap()) != 0:
		s.bad("receipt-price", "%s: price %v, paid is %s", where, f.EffectiveGasPrice, e.tx.GasFeeCap())
	case d != "":
		s.bad("receipt-logs", "%s: %s", where, d)
	case f.LogsBloom != bloom:
		s.bad("receipt-bloom", "%s: bloom does not match the logs", where)
	}
}

// absent asks for things that are not on chain.
func (s *x1) absent() {
	x := s.x
	none := func(m string, args ...any) {
		var raw json.RawMessage
		x.r.Eval(1)
		x.r.Count("absent_"+m, 1)
		if err := call(s.n, &raw, m, args...); err == nil && raw != nil && string(raw) != "null" && string(raw) != `"0x"` {
			s.bad("phantom", "%s %v answers %s", m, args, raw)
		}
	}
	var h common.Hash
	x.rng.Read(h[:])
	hs := []common.Hash{h}
	for g, m := range s.book.refused {
		if s.book.byHash[g] == nil {
			hs = append(hs, m.Eth.Hash())
		}
	}
	if len(s.held) > 0 {
		hs = append(hs, s.held[0].Eth.Hash())
	}
	for _, g := range s.gone {
		if s.book.byHash[g] == nil {
			hs = append(hs, g)
			x.r.Count("rolled_back_txs", 1)
		}
	}
	for _, g := range s.goneBlocks {
		x.r.Count("rolled_back_blocks", 1)
		none("eth_getBlockByHash", g, false)
		none("eth_getBlockTransactionCountByHash", g)
	}
	for _, g := range hs {
		none("eth_getTransactionByHash", g)
		none("eth_getTransactionReceipt", g)
		none("eth_getRawTransactionByHash", g)
	}
	none("eth_getBlockByHash", h, true)
	none("eth_getBlockTransactionCountByHash", h)
	none("eth_getTransactionByBlockHashAndIndex", h, "0x0")
	next := hexutil.EncodeUint64(uint64(x.c.Height + 1 + int64(x.rng.Intn(3))))
	none("eth_getBlockByNumber", next, false)
	none("eth_getBlockTransactionCountByNumber", next)
	none("eth_getTransactionByBlockNumberAndIndex", next, "0x0")
}

// copyDB is a copy of what a database in memory holds.
func copyDB(db dbm.DB) dbm.DB {
	out := dbm.NewMemDB()
	it, err := db.Iterator(nil, nil)
	must(err)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		must(out.Set(it.Key(), it.Value()))
	}
	return out
}

// rollback has the node run some blocks more and rolls the chain back to where it was (as mrollback
// does), so other blocks follow.
func (s *x1) rollback() {
	x := s.x
	cfg := x.c.Cfg
	cfg.NoInit, cfg.DB, cfg.KVIndexerDB = true, copyDB(cfg.DB), dbm.NewMemDB()
	alt := verifkit.NewChain(cfg)
	alt.Genesis, alt.BlockGap, alt.Now = x.c.Genesis, x.c.BlockGap+1e9, x.c.Now
	var again [][]byte // included anew later
	for _, m := range s.held {
		again = append(again, m.Bytes)
	}
	nonce := map[string]uint64{}
	for i := 1 + x.rng.Intn(4); i > 0; i-- {
		var txs [][]byte
		for j := x.rng.Intn(9); j > 0; j-- {
			a := alt.Accs[x.rng.Intn(len(alt.Accs))]
			if a.Eth == s.acc.Eth {
				continue
			}
			id := string(a.Acc)
			if _, ok := nonce[id]; !ok {
				nonce[id] = alt.Seq(a.Acc)
			}
			tx := alt.SignEth(a, verifkit.EthTx{Type: []uint8{0, 2}[x.rng.Intn(2)], Nonce: nonce[id], To: addrp(x.tokenAddr("uusdc")), Data: pack(erc20ABI, "transfer", s.acc.Eth, big.NewInt(777)), Gas: 1_000_000, FeeCap: gasPrice(alt), TipCap: gasPrice(alt)})
			_, bz, err := alt.EthToCosmos(tx)
			must(err)
			nonce[id]++
			txs = append(txs, bz)
			s.gone = append(s.gone, tx.Hash())
		}
		txs = append(txs, again...)
		again = nil
		if alt.Block(txs...) == nil {
			panic(harnessPanic{fmt.Sprint("blocks to roll back: ", alt.HaltErr)})
		}
		var b *rpcBlock
		if err := call(alt.NewNode(nil), &b, "eth_getBlockByNumber", hexutil.EncodeUint64(uint64(alt.Height)), false); err != nil || b == nil {
			s.bad("block-missing", "block %d cannot be found by its number: %v", alt.Height, err)
			continue
		}
		s.goneBlocks = append(s.goneBlocks, b.Hash)
	}
	x.r.Count("rollbacks", 1)
	x.reopen(nil)
	s.n = x.c.NewNode(nil)
}
