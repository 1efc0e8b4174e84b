package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"

	"github.com/holiman/uint256"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/tracing"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["E02"] = monE02 }

var (
	cosmosPrecompile   = common.BytesToAddress([]byte{0xf1})
	registryPrecompile = common.BytesToAddress([]byte{0xf2})
)

// recMeter is a gas meter that remembers what the EVM charged.
type recMeter struct {
	storetypes.GasMeter
	evm []uint64
}

func (m *recMeter) ConsumeGas(n storetypes.Gas, d string) {
	if strings.Contains(d, "EVM") {
		m.evm = append(m.evm, n)
	}
	m.GasMeter.ConsumeGas(n, d)
}

// topFrame records the outermost EVM frame.
type topFrame struct {
	depth   int
	entered bool
	done    bool
	gas     uint64
	out     []byte
	used    uint64
	err     error
	frames  int
	moved   bool
	ops     int
	fee     common.Address
	ctx     *tracing.VMContext
	touched map[common.Address]bool
	opSink  func(op byte, gas uint64, depth int)
	sys     int
	evidx   int
}

func (t *topFrame) hooks() *tracing.Hooks {
	t.touched = map[common.Address]bool{}
	h := &tracing.Hooks{
		OnTxStart: func(v *tracing.VMContext, tx *coretypes.Transaction, from common.Address) { t.ctx = v },
		OnEnter: func(depth int, typ byte, from, to common.Address, input []byte, gas uint64, value *big.Int) {
			if t.depth == 0 && !t.entered {
				t.gas = gas
				t.entered = true
			}
			t.depth++
			t.frames++
			if to != t.fee {
				t.touched[to] = true
			} else {
				t.sys++
			}
			if !t.done && ((value != nil && value.Sign() > 0) || vm.OpCode(typ) == vm.SELFDESTRUCT) {
				t.moved = true
			}
		},
		OnExit: func(depth int, output []byte, gasUsed uint64, err error, reverted bool) {
			t.depth--
			if t.depth == 0 && !t.done {
				t.done = true
				t.out, t.used, t.err = common.CopyBytes(output), gasUsed, err
			}
		},
	}
	if t.opSink != nil {
		h.OnOpcode = func(pc uint64, op byte, gas, cost uint64, scope tracing.OpContext, rData []byte, depth int, err error) {
			if t.sys == 0 || scope.Address() != t.fee {
				t.opSink(op, gas, depth)
			}
		}
	}
	return h
}

// refConfig are the fork rules the chain documents: everything up to Cancun plus the
// Prague precompiles, no EIP-4762.
func refConfig(chainID *big.Int) *params.ChainConfig {
	z := uint64(0)
	b := func() *big.Int { return new(big.Int) }
	return &params.ChainConfig{ChainID: chainID, HomesteadBlock: b(), DAOForkBlock: b(), DAOForkSupport: true, EIP150Block: b(), EIP155Block: b(), EIP158Block: b(),
		ByzantiumBlock: b(), ConstantinopleBlock: b(), PetersburgBlock: b(), IstanbulBlock: b(), MuirGlacierBlock: b(), BerlinBlock: b(), LondonBlock: b(),
		ArrowGlacierBlock: b(), GrayGlacierBlock: b(), MergeNetsplitBlock: b(), ShanghaiTime: &z, CancunTime: &z, PragueTime: &z}
}

type evmTx struct {
	kind   int // 0 create, 1 create2, 2 call, 3 static call
	from   common.Address
	to     common.Address
	data   []byte
	value  uint64
	salt   uint64
	gas    uint64
	al     coretypes.AccessList
	block  int // block offset
	failed bool
}

func (t evmTx) String() string {
	k := []string{"create", "create2", "call", "staticcall"}[t.kind]
	return fmt.Sprintf("%s from %s to %s value %d gas %d al %d data %d bytes", k, t.from.Hex()[:8], t.to.Hex()[:8], t.value, t.gas, len(t.al), len(t.data))
}

// execOut is what one execution showed.
type execOut struct {
	ret     []byte
	addr    common.Address
	logs    []evmtypes.Log
	err     error
	top     topFrame
	charged []uint64
	panicV  any
	ctx     sdk.Context // state after (only if err == nil)
	events  sdk.Events
}

// runEVM executes tx on a branch of ctx and writes it back on success.
func runEVM(c *verifkit.Chain, ctx sdk.Context, t evmTx, trace bool, commit bool, sink func(op byte, gas uint64, depth int)) (o execOut) {
	k := c.App.EVMKeeper
	meter := &recMeter{GasMeter: storetypes.NewGasMeter(t.gas)}
	cctx, write := ctx.CacheContext()
	cctx = cctx.WithGasMeter(meter).WithEventManager(sdk.NewEventManager())
	if t.block > 0 {
		cctx = cctx.WithBlockHeight(ctx.BlockHeight() + int64(t.block)).WithBlockTime(ctx.BlockTime().Add(c.BlockGap * 3))
	}
	o.top.fee = c.Contract(verifkit.FeeDenom)
	o.top.opSink = sink
	var hooks *tracing.Hooks
	if trace {
		hooks = o.top.hooks()
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				o.panicV = p
				o.err = fmt.Errorf("panic: %v", p)
			}
		}()
		var logs evmtypes.Logs
		v := uint256.NewInt(t.value)
		switch t.kind {
		case 0:
			o.ret, o.addr, logs, o.err = k.EVMCreateWithTracer(cctx, t.from, t.data, v, nil, t.al, hooks)
		case 1:
			s := t.salt
			o.ret, o.addr, logs, o.err = k.EVMCreateWithTracer(cctx, t.from, t.data, v, &s, t.al, hooks)
		case 2:
			o.ret, logs, o.err = k.EVMCallWithTracer(cctx, t.from, t.to, t.data, v, t.al, hooks)
		case 3:
			o.ret, o.err = k.EVMStaticCallWithTracer(cctx, t.from, t.to, t.data, t.al, hooks)
		}
		o.logs = logs
	}()
	o.charged = meter.evm
	o.ctx = cctx
	o.events = cctx.EventManager().Events()
	if o.err == nil && commit && t.kind != 3 {
		write()
	}
	return o
}

var (
	baseOnce  sync.Once
	baseChain *verifkit.Chain
)

// base is a shared chain whose committed state is only read.
func base() *verifkit.Chain {
	baseOnce.Do(func() { baseChain = verifkit.NewChain(verifkit.Config{NAcc: 4, GasPrice: "0.15"}) })
	return baseChain
}

// evmWorld is a list of executions with the addresses they talk about.
type evmWorld struct {
	txs   []evmTx
	desc  []string
	pool  []common.Address
	stats map[string]int
}

// genWorld deploys a few contracts which know each other and calls them.
func genWorld(rng *rand.Rand, c *verifkit.Chain, nonces map[common.Address]uint64, noval bool, ncalls int) *evmWorld {
	w := &evmWorld{stats: map[string]int{}}
	eoa := []common.Address{c.Accs[0].Eth, c.Accs[1].Eth, c.Accs[2].Eth}
	nc := 2 + rng.Intn(3)
	var cs []common.Address
	for i := 0; i < nc; i++ {
		cs = append(cs, createAddr(eoa[0], nonces[eoa[0]]+uint64(i)))
	}
	empty := common.BytesToAddress([]byte(fmt.Sprintf("empty-%d-account------", rng.Intn(1000))))
	w.pool = append(w.pool, cs...)
	w.pool = append(w.pool, cs...) // contracts more often
	w.pool = append(w.pool, eoa[1], empty)
	for i := 0; i < 2; i++ { // future children
		w.pool = append(w.pool, createAddr(cs[rng.Intn(nc)], uint64(1+rng.Intn(3))))
	}
	gases := []uint64{150_000, 400_000, 1_000_000, 3_000_000}
	for i := 0; i < nc; i++ {
		g := &gen{rng: rng, addrs: w.pool, noval: noval, stats: w.stats}
		var code []byte
		if rng.Intn(12) == 0 {
			code = verifkit.Deployer(g.rawCode())
			g.note("raw")
		} else {
			code = verifkit.Deployer(g.runtime(8))
		}
		t := evmTx{kind: 0, from: eoa[0], data: code, gas: 12_000_000}
		if !noval && rng.Intn(3) == 0 {
			t.value = uint64(rng.Intn(500_000))
		}
		w.txs = append(w.txs, t)
		w.desc = append(w.desc, g.String())
	}
	for i := 0; i < ncalls; i++ {
		t := evmTx{kind: 2, from: eoa[rng.Intn(3)], to: cs[rng.Intn(nc)], gas: gases[rng.Intn(len(gases))], block: 1 + rng.Intn(2)}
		if rng.Intn(8) == 0 {
			t.to = w.pool[rng.Intn(len(w.pool))]
		}
		in := make([]byte, rng.Intn(40))
		rng.Read(in)
		if len(in) > 0 {
			in[0] = byte(rng.Intn(3))
		}
		t.data = in
		if !noval && rng.Intn(4) == 0 {
			t.value = uint64(rng.Intn(1000))
		}
		if rng.Intn(5) == 0 {
			for j := 0; j < 1+rng.Intn(3); j++ {
				tup := coretypes.AccessTuple{Address: w.pool[rng.Intn(len(w.pool))]}
				for s := 0; s < rng.Intn(3); s++ {
					tup.StorageKeys = append(tup.StorageKeys, common.BigToHash(big.NewInt(int64(rng.Intn(4)))))
				}
				t.al = append(t.al, tup)
			}
		}
		d := ""
		switch rng.Intn(10) {
		case 0: // deployment with a constructor
			g := &gen{rng: rng, addrs: w.pool, noval: noval, stats: w.stats}
			t.kind, t.data, t.from = rng.Intn(2), g.initCode(), eoa[1+rng.Intn(2)]
			t.salt = []uint64{uint64(rng.Intn(3)), uint64(rng.Intn(3))<<62 | uint64(rng.Intn(3))<<33}[rng.Intn(2)]
			d = g.String()
		case 1:
			t.kind, t.value = 3, 0
		}
		w.txs = append(w.txs, t)
		w.desc = append(w.desc, d)
	}
	return w
}

// refWorld is the geth state of the same accounts.
type refWorld struct {
	db      *state.StateDB
	cfg     *params.ChainConfig
	slots   map[common.Address]map[common.Hash]bool
	hashes  func(uint64) common.Hash
	txIndex int
}

func newRefWorld(chainID *big.Int) *refWorld {
	db, err := state.New(coretypes.EmptyRootHash, state.NewDatabase(rawdb.NewMemoryDatabase()), nil)
	must(err)
	return &refWorld{db: db, cfg: refConfig(chainID), slots: map[common.Address]map[common.Hash]bool{}}
}

type refOut struct {
	ret     []byte
	addr    common.Address
	err     error
	used    uint64 // before refund
	net     uint64 // after refund
	logs    []*coretypes.Log
	touched map[common.Address]bool
	moved   bool
}

func (w *refWorld) run(t evmTx, gas uint64, v *tracing.VMContext, baseFee *big.Int, opSink func(op byte, gas uint64, depth int)) (o refOut) {
	w.txIndex++
	w.db.SetTxContext(common.BigToHash(big.NewInt(int64(w.txIndex))), w.txIndex)
	o.touched = map[common.Address]bool{}
	first := true
	h := &tracing.Hooks{
		OnEnter: func(depth int, typ byte, from, to common.Address, input []byte, gas uint64, value *big.Int) {
			o.touched[to] = true
			if (value != nil && value.Sign() > 0) || vm.OpCode(typ) == vm.SELFDESTRUCT {
				o.moved = true
			}
			_ = first
		},
		OnStorageChange: func(addr common.Address, slot, prev, new common.Hash) {
			if w.slots[addr] == nil {
				w.slots[addr] = map[common.Hash]bool{}
			}
			w.slots[addr][slot] = true
		},
	}
	if opSink != nil {
		h.OnOpcode = func(pc uint64, op byte, gas, cost uint64, scope tracing.OpContext, rData []byte, depth int, err error) {
			opSink(op, gas, depth)
		}
	}
	w.db.SetLogger(h)
	evm := vm.NewEVM(vm.BlockContext{
		CanTransfer: func(db vm.StateDB, a common.Address, v *uint256.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db vm.StateDB, a, b common.Address, v *uint256.Int) {
			db.SubBalance(a, v, tracing.BalanceChangeTransfer)
			db.AddBalance(b, v, tracing.BalanceChangeTransfer)
		},
		GetHash: w.hashes, Coinbase: common.Address{}, GasLimit: gas, BlockNumber: v.BlockNumber, Time: v.Time, Difficulty: new(big.Int),
		BaseFee: baseFee, BlobBaseFee: new(big.Int), Random: v.Random,
	}, vm.TxContext{Origin: t.from, GasPrice: v.GasPrice, BlobFeeCap: new(big.Int)}, w.db, w.cfg, vm.Config{Tracer: h})
	rules := w.cfg.Rules(v.BlockNumber, true, v.Time)
	var dst *common.Address
	if t.kind >= 2 {
		to := t.to
		dst = &to
	}
	w.db.Prepare(rules, t.from, common.Address{}, dst, append(append([]common.Address{}, vm.ActivePrecompiles(rules)...), cosmosPrecompile, registryPrecompile), t.al)
	snap := w.db.Snapshot()
	var left uint64
	val := uint256.NewInt(t.value)
	switch t.kind {
	case 0:
		o.ret, o.addr, left, o.err = evm.Create(vm.AccountRef(t.from), t.data, gas, val)
	case 1:
		o.ret, o.addr, left, o.err = evm.Create2(vm.AccountRef(t.from), t.data, gas, val, uint256.NewInt(t.salt))
	case 2:
		o.ret, left, o.err = evm.Call(vm.AccountRef(t.from), t.to, t.data, gas, val)
	case 3:
		o.ret, left, o.err = evm.StaticCall(vm.AccountRef(t.from), t.to, t.data, gas)
	}
	o.used = gas - left
	refund := w.db.GetRefund()
	if refund > o.used/5 {
		refund = o.used / 5
	}
	o.net = o.used - refund
	o.logs = w.db.GetLogs(common.BigToHash(big.NewInt(int64(w.txIndex))), 0, common.Hash{})
	if o.err != nil || t.kind == 3 {
		w.db.RevertToSnapshot(snap)
	}
	w.db.Finalise(true)
	return o
}

// compareTx judges one execution; it returns a description of the first difference.
func compareTx(o *execOut, ref *refOut, t evmTx, noval bool) (sig, diff string) {
	if o.panicV != nil {
		if oog, ok := o.panicV.(storetypes.ErrorOutOfGas); ok {
			// the EVM is given what the meter has left, so charging it cannot run out
			return "out-of-gas-panic", fmt.Sprintf("gas meter ran out: %v", oog)
		}
		return "panic", fmt.Sprintf("panic %v", o.panicV)
	}
	if (o.err == nil) != (ref.err == nil) {
		return "outcome", fmt.Sprintf("err %v, reference %v", o.err, ref.err)
	}
	if o.top.entered {
		a, b := o.top.err, ref.err
		if (a == nil) != (b == nil) || (a != nil && a.Error() != b.Error()) {
			return "outcome", fmt.Sprintf("err %v, reference %v", a, b)
		}
		if !bytes.Equal(o.top.out, ref.ret) {
			return "output", fmt.Sprintf("output %x, reference %x", o.top.out, ref.ret)
		}
		if o.top.used != ref.used {
			return "gas", fmt.Sprintf("gas used %d, reference %d", o.top.used, ref.used)
		}
	}
	if ref.err == nil {
		if !bytes.Equal(o.ret, ref.ret) {
			return "output", fmt.Sprintf("returned %x, reference %x", o.ret, ref.ret)
		}
		if t.kind <= 1 && o.addr != ref.addr {
			return "address", fmt.Sprintf("address %s, reference %s", o.addr, ref.addr)
		}
		if t.kind != 3 {
			var mine []evmtypes.Log
			for _, l := range o.logs {
				if common.HexToAddress(l.Address) != o.top.fee {
					mine = append(mine, l)
				}
			}
			if len(mine) != len(ref.logs) {
				return "logs", fmt.Sprintf("%d logs, reference %d", len(mine), len(ref.logs))
			}
			for i, l := range mine {
				x := ref.logs[i]
				var tp []string
				for _, h := range x.Topics {
					tp = append(tp, h.Hex())
				}
				if common.HexToAddress(l.Address) != x.Address || strings.Join(l.Topics, ",") != strings.Join(tp, ",") || l.Data != "0x"+hex.EncodeToString(x.Data) {
					return "logs", fmt.Sprintf("log %d: %v, reference %v", i, l, x)
				}
			}
		}
	} else if t.kind != 3 && ref.err == vm.ErrExecutionReverted && !strings.Contains(o.err.Error(), hex.EncodeToString(ref.ret)) {
		return "revert-reason", fmt.Sprintf("error %v does not carry revert data %x", o.err, ref.ret)
	}
	// what the gas meter was charged; fee token transfers may earn refunds of their own, and
	// exceptional halts are judged by T03
	if noval && !o.top.moved && !ref.moved {
		exceptional := ref.err != nil && ref.err != vm.ErrExecutionReverted
		if !exceptional {
			if len(o.charged) == 0 || o.charged[len(o.charged)-1] != ref.net {
				return "charged-gas", fmt.Sprintf("charged %v, reference %d (before refund %d)", o.charged, ref.net, ref.used)
			}
		}
	}
	return "", ""
}

// compareState judges the state after an execution.
func compareState(c *verifkit.Chain, ctx sdk.Context, w *refWorld, addrs map[common.Address]bool) (sig, diff string) {
	k := c.App.EVMKeeper
	_, evm, err := k.CreateEVM(ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), common.Address{}, nil)
	must(err)
	for a := range addrs {
		if x, y := evm.StateDB.GetNonce(a), w.db.GetNonce(a); x != y {
			return "nonce", fmt.Sprintf("nonce of %s is %d, reference %d", a, x, y)
		}
		if x, y := evm.StateDB.GetCode(a), w.db.GetCode(a); !bytes.Equal(x, y) {
			return "code", fmt.Sprintf("code of %s is %x, reference %x", a, x, y)
		}
		if x, y := evm.StateDB.GetCodeSize(a), w.db.GetCodeSize(a); x != y {
			return "code", fmt.Sprintf("code size of %s is %d, reference %d", a, x, y)
		}
		x := c.App.BankKeeper.GetBalance(ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), sdk.AccAddress(a.Bytes()), verifkit.FeeDenom).Amount.BigInt()
		if y := w.db.GetBalance(a).ToBig(); x.Cmp(y) != 0 {
			return "balance", fmt.Sprintf("balance of %s is %s, reference %s", a, x, y)
		}
		slots := map[common.Hash]bool{}
		for i := int64(0); i < 6; i++ {
			slots[common.BigToHash(big.NewInt(i))] = true
		}
		for s := range w.slots[a] {
			slots[s] = true
		}
		for s := range slots {
			if x, y := evm.StateDB.GetState(a, s), w.db.GetState(a, s); x != y {
				return "storage", fmt.Sprintf("storage of %s at %s is %s, reference %s", a, s, x, y)
			}
		}
	}
	return "", ""
}

func nonceMap(c *verifkit.Chain, ctx sdk.Context) map[common.Address]uint64 {
	m := map[common.Address]uint64{}
	for _, a := range c.Accs {
		m[a.Eth] = c.App.AccountKeeper.GetAccount(ctx, a.Acc).GetSequence()
	}
	return m
}

func monE02(r *R) {
	r.Rule = "a distinct case is a (kind of execution, outcome, features reached) class; an evaluation is one execution compared with go-ethereum's own state on result, logs, gas, storage, code, nonces and balances"
	c := base()
	baseFee, err := c.App.EVMKeeper.BaseFee(c.QCtx())
	must(err)
	r.ParCase("world", r.N(700, 12000), func(id string, rng *rand.Rand) {
		noval := rng.Intn(2) == 0
		ctx := c.Scratch(0)
		e02World(r, c, ctx, id, rng, baseFee, noval, genWorld(rng, c, nonceMap(c, ctx), noval, 6))
	})
	r.ParCase("drill", r.N(250, 6000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		e02World(r, c, ctx, id, rng, baseFee, true, genDrill(rng, c, nonceMap(c, ctx)))
	})
	r.ParCase("size", r.N(24, 600), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		e02World(r, c, ctx, id, rng, baseFee, true, genSizes(rng, c, nonceMap(c, ctx)))
	})
}

// genSizes is contracts of many sizes, up to the largest and beyond, and one that looks at them.
func genSizes(rng *rand.Rand, c *verifkit.Chain, nonces map[common.Address]uint64) *evmWorld {
	w := &evmWorld{stats: map[string]int{}}
	from := c.Accs[0].Eth
	look := verifkit.NewAsm()
	const n = 4
	for i := 0; i < n; i++ {
		size := []int{1, 255, 256, 4095, 4096, 8192, 16383, 16384, 20000, params.MaxCodeSize - 1, params.MaxCodeSize, params.MaxCodeSize + 1}[rng.Intn(12)]
		if rng.Intn(3) == 0 {
			size = rng.Intn(params.MaxCodeSize)
		}
		code := make([]byte, size)
		rng.Read(code)
		if size > 0 {
			code[0] = byte(vm.STOP)
		}
		at := createAddr(from, nonces[from]+uint64(i))
		w.pool = append(w.pool, at)
		w.txs = append(w.txs, evmTx{kind: 0, from: from, data: verifkit.Deployer(code), gas: 12_000_000})
		w.desc = append(w.desc, fmt.Sprintf("%d bytes of code", size))
		look.Push(at).Op(vm.EXTCODESIZE).Push(96 * i).Op(vm.MSTORE)
		look.Push(at).Op(vm.EXTCODEHASH).Push(96*i + 32).Op(vm.MSTORE)
		look.Push(32).Push(rng.Intn(size + 10)).Push(96*i + 64).Push(at).Op(vm.EXTCODECOPY)
	}
	look.ReturnMem(0, 96*n)
	to := createAddr(from, nonces[from]+n)
	w.pool = append(w.pool, to)
	w.txs = append(w.txs, evmTx{kind: 0, from: from, data: verifkit.Deployer(look.Bytes()), gas: 12_000_000},
		evmTx{kind: 2, from: c.Accs[1].Eth, to: to, gas: 3_000_000, block: 1})
	w.desc = append(w.desc, "looks at them", "")
	return w
}

// genDrill is two contracts that do little but write, clear and read back a few slots, of storage and
// of transient storage, in and around frames that succeed and fail.
func genDrill(rng *rand.Rand, c *verifkit.Chain, nonces map[common.Address]uint64) *evmWorld {
	w := &evmWorld{stats: map[string]int{}}
	eoa := []common.Address{c.Accs[0].Eth, c.Accs[1].Eth, c.Accs[2].Eth}
	cs := []common.Address{createAddr(eoa[0], nonces[eoa[0]]), createAddr(eoa[0], nonces[eoa[0]]+1)}
	w.pool = append(append([]common.Address{}, cs...), eoa[1])
	const segs = 4
	for range cs {
		var desc []string
		a := verifkit.NewAsm()
		for s := 1; s < segs; s++ {
			a.Push(0).Op(vm.CALLDATALOAD).Push(0).Op(vm.BYTE).Push(s).Op(vm.EQ).PushLabel(fmt.Sprint("s", s)).Op(vm.JUMPI)
		}
		tell := func(read func()) {
			a.Op(vm.GAS)
			read()
			a.Push(0).Op(vm.MSTORE, vm.GAS, vm.SWAP1, vm.SUB).Push(32).Op(vm.MSTORE).Log0(0, 64)
		}
		for s := 0; s < segs; s++ {
			if s > 0 {
				a.Label(fmt.Sprint("s", s))
			}
			for n := 5 + rng.Intn(8); n > 0; n-- {
				k, v := rng.Intn(3), []int{0, 0, 1, 2}[rng.Intn(4)]
				switch op := rng.Intn(12); {
				case op < 3:
					a.Sstore(k, v)
					desc = append(desc, fmt.Sprintf("%d=%d", k, v))
				case op < 6:
					a.Tstore(k, v)
					desc = append(desc, fmt.Sprintf("t%d=%d", k, v))
				case op < 8:
					tell(func() { a.Push(k).Op(vm.SLOAD) })
					desc = append(desc, fmt.Sprintf("%d?", k))
				case op < 10:
					tell(func() { a.Push(k).Op(vm.TLOAD) })
					desc = append(desc, fmt.Sprintf("t%d?", k))
				case s < segs-1:
					to, kind := cs[rng.Intn(2)], []vm.OpCode{vm.CALL, vm.CALL, vm.DELEGATECALL, vm.CALLCODE, vm.STATICCALL}[rng.Intn(5)]
					var gas any
					if rng.Intn(3) == 0 {
						gas = 2000 + rng.Intn(40_000)
					}
					d := s + 1 + rng.Intn(segs-1-s)
					a.Push(d).Push(64).Op(vm.MSTORE8)
					tell(func() { a.Call(kind, to, 0, 64, 1, gas) })
					desc = append(desc, fmt.Sprintf("%s(%s,%d)", kind, to.Hex()[:6], d))
				}
			}
			switch rng.Intn(7) {
			case 0:
				a.RevertMem(0, 32)
				desc = append(desc, "revert |")
			case 1:
				a.Op(vm.INVALID)
				desc = append(desc, "invalid |")
			default:
				for k := 0; k < 3; k++ {
					tell(func() { a.Push(k).Op(vm.TLOAD) })
				}
				a.ReturnMem(0, 32)
				desc = append(desc, "return |")
			}
		}
		w.txs = append(w.txs, evmTx{kind: 0, from: eoa[0], data: verifkit.Deployer(a.Bytes()), gas: 12_000_000})
		w.desc = append(w.desc, strings.Join(desc, " "))
	}
	for i := 0; i < 5; i++ {
		w.txs = append(w.txs, evmTx{kind: 2, from: eoa[rng.Intn(3)], to: cs[rng.Intn(2)], gas: 3_000_000, data: []byte{byte(rng.Intn(segs))}, block: 1 + rng.Intn(2)})
		w.desc = append(w.desc, "")
	}
	return w
}

func e02World(r *R, c *verifkit.Chain, ctx sdk.Context, id string, rng *rand.Rand, baseFee *big.Int, noval bool, w *evmWorld) {
	ref := newRefWorld(c.EthChainID())
	ref.hashes = func(n uint64) common.Hash { return common.Hash{} }
	addrs := map[common.Address]bool{}
	for _, a := range w.pool {
		addrs[a] = true
	}
	for _, a := range c.Accs {
		addrs[a.Eth] = true
	}
	for a := range addrs {
		b := c.App.BankKeeper.GetBalance(ctx, sdk.AccAddress(a.Bytes()), verifkit.FeeDenom).Amount.BigInt()
		ref.db.SetBalance(a, uint256.MustFromBig(b), tracing.BalanceChangeUnspecified)
		if acc := c.App.AccountKeeper.GetAccount(ctx, a.Bytes()); acc != nil {
			ref.db.SetNonce(a, acc.GetSequence())
		}
	}
	ref.db.Finalise(true)
	delete(addrs, common.BytesToAddress([]byte{1})) // the chain's own signer
	for i, t := range w.txs {
		o := runEVM(c, ctx, t, true, false, nil)
		p := runEVM(c, ctx, t, false, true, nil)
		if o.top.ctx == nil {
			r.harnessError("case %s: no trace: %v", id, o.err)
			return
		}
		rf := ref.run(t, o.top.gas, o.top.ctx, baseFee, nil)
		r.Eval(1)
		for a := range rf.touched {
			if a != evmtypes.StdAddress {
				addrs[a] = true
			}
		}
		sig, diff := compareTx(&o, &rf, t, noval)
		if sig == "" && (fmt.Sprint(o.err) != fmt.Sprint(p.err) || !bytes.Equal(o.ret, p.ret) || fmt.Sprint(o.charged) != fmt.Sprint(p.charged)) {
			sig, diff = "trace-dependent", fmt.Sprintf("with tracer %v %x %v, without %v %x %v", o.err, o.ret, o.charged, p.err, p.ret, p.charged)
		}
		if sig == "" {
			sig, diff = compareState(c, ctx, ref, addrs)
		}
		if sig != "" {
			where := ""
			_ = where
			if sig == "output" || sig == "gas" || sig == "outcome" || sig == "charged-gas" {
				where = e02Locate(c, id, rng, w, i)
			}
			r.Violate(id, sig, "tx %d %s: %s\n%s\nprograms: %s", i, t, diff, where, strings.Join(w.desc[:i+1], "\n   "))
			return
		}
		cls := "ok"
		if rf.err != nil {
			cls = rf.err.Error()
			if strings.HasPrefix(cls, "invalid opcode") || strings.HasPrefix(cls, "stack") {
				cls = cls[:5]
			}
		}
		r.Count("outcome_"+cls, 1)
		r.Count("evm_frames", o.top.frames)
		r.Count("logs", len(rf.logs))
		r.Distinct(fmt.Sprintf("%d/%s/frames%d/logs%d/moved%v/al%d", t.kind, cls, min(o.top.frames, 12), min(len(rf.logs), 4), o.top.moved, min(len(t.al), 2)))
		if i == len(w.txs)-1 {
			r.Sample("%s: %s -> %s gas %d frames %d", id, t, cls, rf.used, o.top.frames)
		}
	}
	for k, v := range w.stats {
		r.Count("stmt_"+k, v)
	}
}

// e02Locate finds the first instruction after which both executions part.
func e02Locate(c *verifkit.Chain, id string, rng *rand.Rand, w *evmWorld, n int) string { return "" }
