package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["E04"] = monE04 }

var e04Ops = []vm.OpCode{vm.NUMBER, vm.TIMESTAMP, vm.CHAINID, vm.BASEFEE, vm.GASPRICE, vm.ORIGIN, vm.CALLER, vm.ADDRESS, vm.CALLVALUE, vm.COINBASE}

// ctxProbe returns the block context and the block hashes at the heights in its calldata.
func ctxProbe() []byte {
	a := verifkit.NewAsm()
	for i, op := range e04Ops {
		a.Op(op).Push(32 * i).Op(vm.MSTORE)
	}
	base := 32 * len(e04Ops)
	// loop: i = 0; while i < calldatasize: mem[base+i] = blockhash(calldata[i]); i += 32
	a.Push(0).Label("l")
	a.Op(vm.DUP1, vm.CALLDATALOAD, vm.BLOCKHASH, vm.DUP2).Push(base).Op(vm.ADD, vm.MSTORE)
	a.Push(32).Op(vm.ADD, vm.DUP1, vm.CALLDATASIZE, vm.GT).PushLabel("l").Op(vm.JUMPI)
	a.Push(base).Op(vm.ADD).Push(0).Op(vm.RETURN)
	return a.Bytes()
}

// forwarder calls the probe with its calldata and returns what it returned.
func forwarder(to common.Address, op vm.OpCode) []byte {
	a := verifkit.NewAsm()
	a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CALLDATACOPY)
	a.Push(0).Push(0).Op(vm.CALLDATASIZE).Push(0)
	if op == vm.CALL || op == vm.CALLCODE {
		a.Push(0)
	}
	a.Push(to).Op(vm.GAS, op, vm.POP)
	a.Op(vm.RETURNDATASIZE).Push(0).Push(0).Op(vm.RETURNDATACOPY, vm.RETURNDATASIZE).Push(0).Op(vm.RETURN)
	return a.Bytes()
}

func monE04(r *R) {
	r.Rule = "a distinct case is (retention, entry path, transaction kind, height class); an evaluation is one execution of the context probe, every word of which is compared with the block and transaction the driver built"
	ret := []uint64{256, 0, 257, 300, 700, 256, 0, 400}
	r.Par(len(ret), func(i int) {
		id := fmt.Sprintf("chain/%d", i)
		r.Case(id, func(rng *rand.Rand) { e04Chain(r, id, rng, ret[i], r.N(330, 1500)) })
	})
}

func e04Chain(r *R, id string, rng *rand.Rand, retain uint64, blocks int) {
	cfg := verifkit.Config{ChainID: fmt.Sprintf("verif%s-1", id[6:]), NAcc: 3, EVM: func(p *evmtypes.GenesisState) { p.Params.NumRetainBlockHashes = retain }}
	if rng.Intn(2) == 0 {
		cfg.GasPrice = []string{"0.15", "0.000000001", "3"}[rng.Intn(3)]
	}
	c := verifkit.NewChain(cfg)
	a := c.Accs[0]
	price, _ := math.LegacyNewDecFromStr("0" + cfg.GasPrice)
	if cfg.GasPrice != "" {
		price = math.LegacyMustNewDecFromStr(cfg.GasPrice)
	}
	// ethereum prices are in wei, fees in the smallest unit of the fee token
	fee, err := c.App.EVMKeeper.LoadFee(c.QCtx())
	must(err)
	scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(18-int(fee.Decimals()))), nil)
	basefee := price.MulInt(math.NewIntFromBigInt(scale)).TruncateInt().BigInt()
	probe := deployEth(c, a, verifkit.Deployer(ctxProbe()))
	fwd := map[string]common.Address{}
	for _, op := range []vm.OpCode{vm.CALL, vm.DELEGATECALL, vm.STATICCALL, vm.CALLCODE} {
		fwd[op.String()] = deployEth(c, a, verifkit.Deployer(forwarder(probe, op)))
	}
	paths := []string{"direct", "CALL", "DELEGATECALL", "STATICCALL", "CALLCODE"}
	restarts := map[int]bool{blocks / 3: true, blocks - 20: true}
	for b := 0; b < blocks; b++ {
		if restarts[b] {
			// a new node on the same database
			n := verifkit.NewChain(verifkit.Config{ChainID: cfg.ChainID, NAcc: 3, DB: c.Cfg.DB, IndexerDB: c.Cfg.IndexerDB, KVIndexerDB: c.Cfg.KVIndexerDB, NoInit: true})
			n.Height, n.Now, n.BlockGap = c.Height, c.Now, c.BlockGap
			c = n
			r.Count("restarts", 1)
		}
		c.BlockGap = 1e9*(1+7*timeDur(rng.Intn(3))) + timeDur(rng.Intn(1e9))
		if retain != 256 && retain != 0 && b == blocks/2 {
			// a longer retention by the authority, applied as the proposal executor would
			c.Block(paramsTx(c, func(p *evmtypes.Params) { p.NumRetainBlockHashes = retain + 50 }))
			r.Count("retention_changes", 1)
		}
		// empty blocks most of the time, probes around interesting heights
		h := c.Height + 1
		near := h < 30 || (h > 250 && h < 270) || h > int64(blocks)-15 || b%37 == 0
		if !near {
			c.Block()
			continue
		}
		var heights []int64
		for _, d := range []int64{-2, -1, 0, 1, 2, 3, 5, 128, 254, 255, 256, 257, 258, 300} {
			heights = append(heights, h-d)
		}
		heights = append(heights, rng.Int63n(h+5), rng.Int63n(h+5), 1, 0)
		var in []byte
		for _, x := range heights {
			in = append(in, common.BigToHash(new(big.Int).And(big.NewInt(x), new(big.Int).SetUint64(^uint64(0)))).Bytes()...)
		}
		type want struct {
			path   string
			caller common.Address
			self   common.Address
			origin common.Address
			gp     *big.Int
		}
		var txs [][]byte
		var wants []want
		seq := c.Seq(a.Acc)
		cseq := c.Seq(c.Accs[1].Acc)
		for j := 0; j < 3; j++ {
			path := paths[rng.Intn(len(paths))]
			to := probe
			w := want{path: path, self: probe}
			if path != "direct" {
				to = fwd[path]
			}
			if j < 2 { // ethereum tx with its own price
				fc := new(big.Int).Set(basefee)
				if rng.Intn(2) == 0 {
					fc.Add(fc, new(big.Int).Mul(big.NewInt(int64(rng.Intn(5))), scale))
				}
				ty := uint8(rng.Intn(3))
				e := verifkit.EthTx{Type: ty, Nonce: seq, To: addrp(to), Data: in, Gas: 1_000_000, FeeCap: fc, TipCap: fc}
				seq++
				txs = append(txs, c.Eth(a, e))
				// the price paid: fee amount, rounded down to the token's unit, over the gas limit
				amt := new(big.Int).Div(new(big.Int).Mul(fc, big.NewInt(1_000_000)), scale)
				gp := math.LegacyNewDecFromBigInt(amt).Quo(math.LegacyNewDec(1_000_000)).MulTruncate(math.LegacyNewDec(1e9)).TruncateInt().BigInt()
				w.gp = new(big.Int).Div(new(big.Int).Mul(gp, scale), big.NewInt(1e9))
				w.origin = a.Eth
			} else {
				cacc := c.Accs[1]
				gasL := uint64(1_000_000)
				amt := price.MulInt64(int64(gasL)).Ceil().TruncateInt()
				amt = amt.AddRaw(int64(rng.Intn(3)) * 1_000_000)
				msg := &evmtypes.MsgCall{Sender: cacc.Bech(), ContractAddr: to.Hex(), Input: hexBytes(in), Value: math.ZeroInt()}
				txs = append(txs, c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{msg}, Signers: []*verifkit.Account{cacc}, Seqs: []uint64{cseq}, Gas: gasL, Fee: sdk.Coins{sdk.NewCoin(verifkit.FeeDenom, amt)}.Sort()}))
				cseq++
				gp := math.LegacyNewDecFromInt(amt).Quo(math.LegacyNewDec(int64(gasL))).MulTruncate(math.LegacyNewDec(1e9)).TruncateInt().BigInt()
				w.gp = new(big.Int).Div(new(big.Int).Mul(gp, scale), big.NewInt(1e9))
				w.origin = cacc.Eth
			}
			w.caller = w.origin
			switch path {
			case "CALL", "STATICCALL":
				w.caller = to
			case "DELEGATECALL":
				w.self = to
			case "CALLCODE":
				w.caller, w.self = to, to
			}
			wants = append(wants, w)
		}
		res := c.Block(txs...)
		if res == nil {
			r.Violate(id, "halt", "block %d: %v", h, c.HaltErr)
			return
		}
		for j, tr := range res.TxResults {
			w := wants[j]
			if tr.Code != 0 {
				r.Violate(id, "tx-failed", "height %d path %s: %s", h, w.path, tr.Log)
				continue
			}
			ret := common.FromHex(responses(tr)[0].(*evmtypes.MsgCallResponse).Result)
			r.Eval(1)
			check := func(name string, i int, exp *big.Int) {
				if got := word(ret, i); got.Cmp(exp) != 0 {
					r.Violate(id, "context-"+name, "height %d tx %d path %s retention %d: %s is %x, want %x", h, j, w.path, retain, name, got, exp)
				}
			}
			exp := []*big.Int{big.NewInt(h), big.NewInt(c.Now.Unix()), c.EthChainID(), basefee, w.gp, w.origin.Big(), w.caller.Big(), w.self.Big(), new(big.Int), new(big.Int)}
			for i, e := range exp {
				check(e04Ops[i].String(), i, e)
			}
			for i, x := range heights {
				e := new(big.Int)
				// genesis has no block; the driver's hashes start at height 1
				if x >= 1 && x < h && x >= h-256 {
					e.SetBytes(verifkit.HeaderHash(c.Cfg.ChainID, x))
					r.Count("block_hashes_nonzero", 1)
				} else {
					r.Count("block_hashes_zero", 1)
				}
				if got := word(ret, len(e04Ops)+i); got.Cmp(e) != 0 {
					r.Violate(id, fmt.Sprintf("blockhash"), "height %d retention %d: BLOCKHASH(%d) [distance %d] is %x, want %x", h, retain, x, h-x, got, e)
				}
			}
			hc := "deep"
			if h <= 256 {
				hc = "shallow"
			}
			r.Distinct(fmt.Sprintf("ret%d/%s/%d/%s/price%s", retain, w.path, j, hc, cfg.GasPrice))
			if h == 260 {
				r.Sample("%s height %d path %s retention %d: %d context words and %d block hashes", id, h, w.path, retain, len(exp), len(heights))
			}
		}
	}
	r.Count("blocks", blocks)
}
