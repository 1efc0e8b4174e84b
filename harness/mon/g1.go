package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"sync/atomic"

	pruningtypes "cosmossdk.io/store/pruning/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"

	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["D01"] = monD01 }

func ethOf(c *verifkit.Chain, tx sdk.Tx) (*coretypes.Transaction, *common.Address, error) {
	return evmkeeper.NewTxUtils(c.App.EVMKeeper).ConvertCosmosTxToEthereumTx(c.QCtx(), tx)
}

// envCode is a contract that answers with everything it can see of its surroundings.
func envCode() []byte {
	a := verifkit.NewAsm()
	n := 0
	put := func() { a.Push(n * 32).Op(vm.MSTORE); n++ }
	for _, op := range []vm.OpCode{vm.NUMBER, vm.TIMESTAMP, vm.CHAINID, vm.BASEFEE, vm.GASPRICE, vm.ORIGIN, vm.CALLER, vm.COINBASE, vm.PREVRANDAO, vm.GASLIMIT, vm.SELFBALANCE, vm.BLOBBASEFEE, vm.GAS, vm.CALLVALUE, vm.CODESIZE} {
		a.Op(op)
		put()
	}
	for _, back := range []int{0, 1, 2, 3, 5, 8, 13, 200, 256, 257} {
		a.Push(back).Op(vm.NUMBER, vm.SUB, vm.BLOCKHASH)
		put()
	}
	for _, op := range []vm.OpCode{vm.BALANCE, vm.EXTCODEHASH, vm.EXTCODESIZE} {
		a.Op(vm.ORIGIN, op)
		put()
		a.Push(0xf1).Op(op)
		put()
	}
	a.Op(vm.GAS)
	put()
	return a.ReturnMem(0, n*32).Bytes()
}

// probes are transactions that look at everything contracts can ask for.
type probes struct {
	x      *hrun
	env    common.Address
	inputs [][]byte // scripts for puppets
}

func newProbes(x *hrun) *probes {
	p := &probes{x: x}
	u := x.users[0]
	x.Run([]*TxMeta{x.ethTx(u, nil, verifkit.Deployer(envCode()), nil, 3_000_000, "env-deploy", func(l *Ledger) bool { return true })})
	p.env = createAddr(u.Eth, x.seq(u)-1)
	return p
}

func (p *probes) script() []byte {
	x := p.x
	rng := x.rng
	var recs []Rec
	for i := 0; i < 1+rng.Intn(4); i++ {
		op := pCallRet
		if rng.Intn(3) == 0 {
			op = pStaticRet
		}
		var to common.Address
		var in []byte
		who := x.pickTo()
		switch rng.Intn(9) {
		case 0, 1, 2:
			to = p.env
		case 3, 4:
			to = evmtypes.CosmosPrecompileAddress
			path := whitelisted[rng.Intn(3)]
			if rng.Intn(3) == 0 {
				path = notWhitelisted[rng.Intn(len(notWhitelisted))]
			}
			req := []string{`{}`, `{"currency_pair":"BTC/USD"}`, `{"currency_pair_ids":["BTC/USD"]}`, `{"nope":1}`, ``, `{`}[rng.Intn(6)]
			in = pack(cosmosABI, "query_cosmos", path, req)
		case 5:
			to = evmtypes.CosmosPrecompileAddress
			in = [][]byte{pack(cosmosABI, "to_cosmos_address", who), pack(cosmosABI, "is_blocked_address", who), pack(cosmosABI, "is_module_address", who),
				pack(cosmosABI, "to_evm_address", x.cosmosOf(who).String()), pack(cosmosABI, "to_denom", x.pickTok().addr), pack(cosmosABI, "to_erc20", x.pickTok().denom)}[rng.Intn(6)]
		case 6:
			to, in = x.pickTok().addr, pack(erc20ABI, "balanceOf", who)
		case 7:
			to, in = x.pickTok().addr, pack(erc20ABI, []string{"totalSupply", "name", "decimals"}[rng.Intn(3)])
		case 8:
			to, in = common.BytesToAddress([]byte{byte(1 + rng.Intn(12))}), make([]byte, rng.Intn(256)) // the standard precompiled contracts
			rng.Read(in)
		}
		recs = append(recs, rec(op, to, i, in))
	}
	return script(recs...)
}

func (p *probes) tx() *TxMeta {
	a := p.x.eoa()
	if a == nil {
		return nil
	}
	s := p.script()
	p.inputs = append(p.inputs, s)
	pp := p.x.puppets[p.x.rng.Intn(len(p.x.puppets))]
	return p.x.ethTx(a, &pp, s, nil, 15_000_000, "probe", func(l *Ledger) bool { return true })
}

// params changes something of the parameters that does not disturb the ledger.
func (p *probes) params() *TxMeta {
	x := p.x
	if x.dirty[string(x.c.Val.Acc)] {
		return nil
	}
	ps, err := x.c.App.EVMKeeper.Params.Get(x.c.QCtx())
	must(err)
	switch x.rng.Intn(2) {
	case 0:
		ps.NumRetainBlockHashes = []uint64{0, 1, 3, 256, 300}[x.rng.Intn(5)]
	case 1:
		ps.AllowCustomERC20 = true
		ps.AllowedCustomERC20s = nil
	}
	m := x.adminTx(&evmtypes.MsgUpdateParams{Authority: authorityAddr(), Params: ps})
	m.Kind = "params"
	m.Apply = func(l *Ledger) bool { return true }
	return m
}

// sameResult compares what two nodes made of a block.
func sameResult(a, b *abci.ResponseFinalizeBlock) string {
	if len(a.TxResults) != len(b.TxResults) {
		return "number of results"
	}
	ev := func(l []abci.Event) string {
		var sb bytes.Buffer
		for _, e := range l {
			fmt.Fprintf(&sb, "%s{", e.Type)
			for _, at := range e.Attributes {
				fmt.Fprintf(&sb, "%s=%q;", at.Key, at.Value)
			}
			sb.WriteString("}")
		}
		return sb.String()
	}
	for i := range a.TxResults {
		x, y := a.TxResults[i], b.TxResults[i]
		switch {
		case x.Code != y.Code || x.Codespace != y.Codespace:
			return fmt.Sprintf("tx %d: code %s/%d and %s/%d (%s | %s)", i, x.Codespace, x.Code, y.Codespace, y.Code, x.Log, y.Log)
		case x.GasUsed != y.GasUsed || x.GasWanted != y.GasWanted:
			return fmt.Sprintf("tx %d: gas %d of %d and %d of %d (%s | %s)", i, x.GasUsed, x.GasWanted, y.GasUsed, y.GasWanted, x.Log, y.Log)
		case !bytes.Equal(x.Data, y.Data):
			return fmt.Sprintf("tx %d: data %x and %x", i, x.Data, y.Data)
		case ev(x.Events) != ev(y.Events):
			return fmt.Sprintf("tx %d: events %s and %s", i, ev(x.Events), ev(y.Events))
		}
	}
	if ev(a.Events) != ev(b.Events) {
		return fmt.Sprintf("block events %s and %s", ev(a.Events), ev(b.Events))
	}
	if fmt.Sprint(a.ValidatorUpdates) != fmt.Sprint(b.ValidatorUpdates) {
		return "validator updates"
	}
	if fmt.Sprint(a.ConsensusParamUpdates) != fmt.Sprint(b.ConsensusParamUpdates) {
		return "consensus parameters"
	}
	if !bytes.Equal(a.AppHash, b.AppHash) {
		return fmt.Sprintf("application hash %X and %X", a.AppHash, b.AppHash)
	}
	return ""
}

// explain names what differs in the stores.
func explain(a, b *verifkit.Chain) string {
	defer func() { _ = recover() }()
	d := verifkit.Diff(a.Dump(), b.Dump())
	if len(d) == 0 {
		return ""
	}
	return fmt.Sprintf(" (%d keys differ, first %s)", len(d), d[0])
}

func monD01(r *R) {
	r.Rule = "distinct = way of running the same blocks (configuration, requests in between, restarts, crash points, concurrency) crossed with the kind and outcome of the transactions in them"
	r.hists("run", 12, 400, &watch{blocks: 9, per: 12, start: func(x *hrun) {
		x.state["p"] = newProbes(x)
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta {
		p := x.state["p"].(*probes)
		for i := 0; i < 3; i++ {
			if m := p.tx(); m != nil {
				txs = append(txs, m)
			}
		}
		if x.rng.Intn(3) == 0 {
			if m := p.params(); m != nil {
				txs = append(txs, m)
			}
		}
		return txs
	}, end: func(x *hrun) {
		ways := []func(x *hrun, rng *rand.Rand) string{replicaQueries, replicaRestart, replicaConcurrent}
		k := x.rng.Intn(len(ways))
		for i := 0; i < 2; i++ {
			w := ways[(k+i)%len(ways)](x, x.rng)
			for _, b := range x.Blocks {
				for _, m := range b {
					r.Distinct(w + "|" + m.Kind + fmt.Sprint(m.Res.Code == 0))
				}
			}
		}
	}})
}

// newReplica starts a node on x's genesis with a configuration of its own. The first
// block is left to the caller.
func newReplica(x *hrun, rng *rand.Rand, cfg verifkit.Config, slow, stores bool) *verifkit.Chain {
	cfg.ChainID, cfg.NAcc, cfg.GasPrice = x.c.Cfg.ChainID, x.c.Cfg.NAcc, x.c.Cfg.GasPrice
	cfg.RawGenesis = x.c.Genesis
	cfg.NoBlock = true
	randNode(rng, &cfg)
	if stores {
		randStores(rng, &cfg)
	}
	if slow {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetIAVLDisableFastNode(true))
	}
	return verifkit.NewChain(cfg)
}

// randNode draws what an operator may set as he likes.
func randNode(rng *rand.Rand, cfg *verifkit.Config) {
	ec := evmconfig.DefaultEVMConfig()
	ec.IndexerCacheSize = []int{1, 8, 20}[rng.Intn(3)]
	ec.ContractSimulationGasLimit = []uint64{1, 100_000, 3_000_000, 1 << 40}[rng.Intn(4)]
	cfg.EVMConfig = &ec
	if rng.Intn(2) == 0 {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetMinGasPrices([]string{"7umin", "1000000uusdc", "0.000001umin,3zeta", ""}[rng.Intn(4)]))
	}
	if rng.Intn(2) == 0 {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetQueryGasLimit(uint64(50_000+rng.Intn(3_000_000))))
	}
	if rng.Intn(3) == 0 {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetIndexEvents([]string{"tx.fee", "message.action"}))
	}
	if rng.Intn(3) == 0 {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetTrace(true))
	}
	cfg.Indexer = rng.Intn(2) == 0
}

// randStores draws how the state is kept. A node keeps this for its lifetime: the pinned
// cosmos/iavl loses track of its versions when these change between two runs (see DESIGN.md).
func randStores(rng *rand.Rand, cfg *verifkit.Config) {
	if rng.Intn(2) == 0 {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetIAVLCacheSize([]int{20_000, 781_250}[rng.Intn(2)]))
	}
	if rng.Intn(3) == 0 {
		cfg.BaseOpts = append(cfg.BaseOpts, baseapp.SetPruning(pruningtypes.NewCustomPruningOptions(2, 10)))
	}
}

// judge compares one block; false when they disagree.
func (x *hrun) judge(b verifkit.BlockRecord, c *verifkit.Chain, res *abci.ResponseFinalizeBlock, way string) bool {
	x.r.Eval(1)
	x.r.Count("blocks_compared_"+way, 1)
	if res == nil {
		x.r.Violate(x.id, way+"-halt", "block %d: the other node stopped: %v", b.Height, c.HaltErr)
		return false
	}
	if d := sameResult(b.Res, res); d != "" {
		x.r.Violate(x.id, way, "block %d: %s%s", b.Height, d, explain(x.c, c))
		return false
	}
	return true
}

func (x *hrun) newNoise(c *verifkit.Chain, n *verifkit.Node, rng *rand.Rand) *noise {
	z := &noise{r: x.r, n: n, c: c, rng: rng, abci: true}
	for _, u := range x.users {
		z.addrs = append(z.addrs, u.Eth)
	}
	z.addrs = append(z.addrs, x.puppets...)
	z.addrs = append(z.addrs, x.puppets...)
	for _, t := range x.tokens {
		z.addrs = append(z.addrs, t.addr)
	}
	z.addrs = append(z.addrs, x.factory, collectorAddr, x.long.Eth)
	if p, ok := x.state["p"].(*probes); ok {
		z.addrs = append(z.addrs, p.env)
		z.envs = append(z.envs, p.env)
		z.calls = append(z.calls, p.inputs...)
	}
	for i := 0; i < 12; i++ {
		p := x.puppets[i%len(x.puppets)]
		z.calls = append(z.calls, x.compile(p, x.genFrame(p, 1)))
	}
	for _, t := range x.tokens {
		z.calls = append(z.calls, pack(erc20ABI, "transfer", x.users[0].Eth, big.NewInt(1)), pack(erc20ABI, "mint", t.addr, big.NewInt(1)))
	}
	z.calls = append(z.calls, pack(factoryABI, "createERC20", "noise", "N", uint8(3)))
	return z
}

// replicaQueries: the node answers queries, checks transactions and judges proposals all the time.
func replicaQueries(x *hrun, rng *rand.Rand) string {
	c := newReplica(x, rng, verifkit.Config{}, rng.Intn(2) == 0, true)
	var n *verifkit.Node
	if c.Cfg.Indexer {
		n = c.NewNode(nil)
	}
	z := x.newNoise(c, n, rng)
	way := fmt.Sprintf("queries indexer=%v", c.Cfg.Indexer)
	for i, b := range x.c.Blocks {
		if i > 0 {
			z.txs = append(append([][]byte{}, b.Txs...), x.c.Blocks[i-1].Txs...)
			if i+1 < len(x.c.Blocks) {
				z.txs = append(z.txs, x.c.Blocks[i+1].Txs...)
			}
			for k := 0; k < 14; k++ {
				z.ask()
			}
			if rng.Intn(3) == 0 {
				// the proposal itself
				_, _ = c.App.ProcessProposal(&abci.RequestProcessProposal{Txs: b.Txs, Height: b.Height, Time: b.Time, Hash: b.Hash})
			}
		}
		res := c.FinalizeAt(b.Height, b.Time, b.Hash, b.Txs)
		if i > 0 && res != nil {
			z.abci = false
			for k := 0; k < 4; k++ {
				z.ask() // between finalising and committing
			}
			z.abci = true
		}
		if res != nil {
			c.Commit()
		}
		if !x.judge(b, c, res, "queries") {
			break
		}
	}
	return way
}

// replicaRestart: the node stops at any point, also within the commit, and starts again.
func replicaRestart(x *hrun, rng *rand.Rand) string {
	cfg := verifkit.Config{DB: dbm.NewMemDB(), IndexerDB: dbm.NewMemDB(), KVIndexerDB: dbm.NewMemDB()}
	base := cfg.DB
	fdb := &failDB{DB: base}
	cfg.DB = fdb
	slow := rng.Intn(2) == 0
	c := newReplica(x, rng, cfg, slow, false)
	reopen := func() {
		fdb.after(0) // whatever the stopped node still does in the background is lost
		fdb = &failDB{DB: base}
		nc := verifkit.Config{DB: fdb, IndexerDB: cfg.IndexerDB, KVIndexerDB: cfg.KVIndexerDB, NoInit: true, ChainID: x.c.Cfg.ChainID, NAcc: x.c.Cfg.NAcc, GasPrice: x.c.Cfg.GasPrice}
		randNode(rng, &nc)
		nc.BaseOpts = append(nc.BaseOpts, baseapp.SetIAVLDisableFastNode(slow))
		c = verifkit.NewChain(nc)
	}
	way := "restart"
	for i := 0; i < len(x.c.Blocks); i++ {
		b := x.c.Blocks[i]
		if i == 0 {
			if !x.judge(b, c, c.Replay(b), "restart") {
				return way
			}
			continue
		}
		switch rng.Intn(6) {
		case 0: // stop between two blocks
			reopen()
			x.r.Count("restart_clean", 1)
		case 1: // between finalising and committing
			res := c.FinalizeAt(b.Height, b.Time, b.Hash, b.Txs)
			if !x.judge(b, c, res, "restart") {
				return way
			}
			reopen()
			x.r.Count("restart_after_finalize", 1)
		case 2: // somewhere in the commit
			res := c.FinalizeAt(b.Height, b.Time, b.Hash, b.Txs)
			if !x.judge(b, c, res, "restart") {
				return way
			}
			fdb.after(rng.Intn(40))
			c.Commit()
			if c.HaltErr == nil {
				x.r.Count("restart_commit_not_reached", 1)
			} else {
				x.r.Count("restart_within_commit", 1)
			}
			reopen()
		case 3: // the block is judged and thrown away first
			other := append([][]byte{}, b.Txs...)
			rng.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
			_ = c.FinalizeAt(b.Height, b.Time, []byte("a proposal that did not make it."), other)
			reopen()
			x.r.Count("restart_after_other_block", 1)
		}
		h := c.App.LastBlockHeight()
		if h >= b.Height {
			continue // the commit had gone through
		}
		if h != b.Height-1 {
			x.r.Violate(x.id, "restart-height", "block %d: the node came back at height %d", b.Height, h)
			return way
		}
		if !x.judge(b, c, c.Replay(b), "restart") {
			return way
		}
	}
	if d := verifkit.Diff(x.c.Dump(), c.Dump()); len(d) > 0 {
		x.r.Violate(x.id, "restart-state", "%d keys differ at the end, first %s", len(d), d[0])
	}
	return way
}

// replicaConcurrent: queries run while blocks are executed.
func replicaConcurrent(x *hrun, rng *rand.Rand) string {
	dbs, done := diskDBs(3)
	defer done()
	c := newReplica(x, rng, verifkit.Config{DB: dbs[0], IndexerDB: dbs[1], KVIndexerDB: dbs[2]}, rng.Intn(2) == 0, true)
	var n *verifkit.Node
	if c.Cfg.Indexer {
		n = c.NewNode(nil)
	}
	if !x.judge(x.c.Blocks[0], c, c.Replay(x.c.Blocks[0]), "concurrent") {
		return "concurrent"
	}
	var top atomic.Int64
	top.Store(c.Height)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		z := x.newNoise(c, n, rand.New(rand.NewSource(rng.Int63())))
		z.abci = false
		z.head = top.Load
		for _, b := range x.c.Blocks {
			z.txs = append(z.txs, b.Txs...)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					x.r.Violate(x.id, "concurrent-panic", "a query beside a block panicked: %v", p)
				}
			}()
			for {
				select {
				case <-stop:
					return
				default:
					z.ask()
				}
			}
		}()
	}
	for _, b := range x.c.Blocks[1:] {
		if !x.judge(b, c, c.Replay(b), "concurrent") {
			break
		}
		top.Store(b.Height)
	}
	close(stop)
	wg.Wait()
	return "concurrent"
}

// failDB is the database as one run of the node has it: from some write on, nothing arrives any more.
type failDB struct {
	dbm.DB
	mu   sync.Mutex
	left int
	on   bool
}

var errStopped = errors.New("the node stopped here")

// after lets n more writes through.
func (f *failDB) after(n int) { f.mu.Lock(); f.left, f.on = n, true; f.mu.Unlock() }

func (f *failDB) do(w func() error) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.on {
		if f.left == 0 {
			return errStopped
		}
		f.left--
	}
	return w()
}
func (f *failDB) Set(k, v []byte) error     { return f.do(func() error { return f.DB.Set(k, v) }) }
func (f *failDB) SetSync(k, v []byte) error { return f.do(func() error { return f.DB.SetSync(k, v) }) }
func (f *failDB) Delete(k []byte) error     { return f.do(func() error { return f.DB.Delete(k) }) }
func (f *failDB) DeleteSync(k []byte) error { return f.do(func() error { return f.DB.DeleteSync(k) }) }
func (f *failDB) NewBatch() dbm.Batch       { return &failBatch{f.DB.NewBatch(), f} }
func (f *failDB) NewBatchWithSize(n int) dbm.Batch {
	return &failBatch{f.DB.NewBatchWithSize(n), f}
}

type failBatch struct {
	dbm.Batch
	f *failDB
}

func (b *failBatch) Write() error     { return b.f.do(b.Batch.Write) }
func (b *failBatch) WriteSync() error { return b.f.do(b.Batch.WriteSync) }
