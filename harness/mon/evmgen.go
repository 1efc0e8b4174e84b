package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/minievm/verifkit"
)

// gen writes random but structured EVM programs. Every observation is folded into a
// hash accumulator at memory word 0, which a program returns or reverts with.
type gen struct {
	rng   *rand.Rand
	addrs []common.Address // addresses programs talk about
	depth int              // of nested init code
	noval bool             // no value transfers or balances
	desc  []string
	stats map[string]int
	lbl   int
}

func (g *gen) note(f string, a ...any) { g.desc = append(g.desc, fmt.Sprintf(f, a...)) }
func (g *gen) hit(s string) {
	if g.stats != nil {
		g.stats[s]++
	}
}

func (g *gen) addr() common.Address { return g.addrs[g.rng.Intn(len(g.addrs))] }

// acc folds the top of the stack into the accumulator.
func (g *gen) acc(a *verifkit.Asm) {
	a.Push(0x20).Op(vm.MSTORE).Push(0x40).Push(0).Op(vm.KECCAK256).Push(0).Op(vm.MSTORE)
}

var envOps = []vm.OpCode{vm.NUMBER, vm.TIMESTAMP, vm.CHAINID, vm.BASEFEE, vm.GASPRICE, vm.ORIGIN, vm.CALLER, vm.ADDRESS, vm.CALLVALUE, vm.CALLDATASIZE,
	vm.CODESIZE, vm.GASLIMIT, vm.DIFFICULTY, vm.COINBASE, vm.BLOBBASEFEE, vm.RETURNDATASIZE, vm.MSIZE, vm.PC}

func (g *gen) pushVal(a *verifkit.Asm) string {
	switch g.rng.Intn(6) {
	case 0, 1:
		a.Push(0)
		return "0"
	case 2, 3:
		v := 1 + g.rng.Intn(3)
		a.Push(v)
		return fmt.Sprint(v)
	case 4:
		a.Push(0).Op(vm.MLOAD)
		return "acc"
	default:
		b := make([]byte, 32)
		g.rng.Read(b)
		b[0] |= 1
		a.Push(b)
		return "rnd"
	}
}

var gasChoices = []int{0, 50, 700, 2300, 9000, 25000, 40000, 60000, 100000, 160000, 250000}

func (g *gen) callGas(a *verifkit.Asm) string {
	if g.rng.Intn(4) == 0 {
		a.Op(vm.GAS)
		return "all"
	}
	v := gasChoices[g.rng.Intn(len(gasChoices))]
	a.Push(v)
	return fmt.Sprint(v)
}

func (g *gen) value() int {
	if g.noval {
		return 0
	}
	switch g.rng.Intn(8) {
	case 0:
		return 1
	case 1:
		return 7
	case 2:
		return 100_000
	case 3:
		return 1 << 60
	}
	return 0
}

// stmt emits one statement; terminal statements report true.
func (g *gen) stmt(a *verifkit.Asm, allowTerm bool) bool {
	r := g.rng
	n := r.Intn(100)
	switch {
	case n < 14:
		v := g.pushVal(a)
		k := r.Intn(4)
		a.Push(k).Op(vm.SSTORE)
		g.note("sstore %d=%s", k, v)
		g.hit("sstore")
	case n < 20:
		k := r.Intn(4)
		a.Push(k).Op(vm.SLOAD)
		g.acc(a)
		g.note("sload %d", k)
		g.hit("sload")
	case n < 24:
		v := g.pushVal(a)
		k := r.Intn(3)
		a.Push(k).Op(vm.TSTORE)
		g.note("tstore %d=%s", k, v)
		g.hit("tstore")
	case n < 27:
		k := r.Intn(3)
		a.Push(k).Op(vm.TLOAD)
		g.acc(a)
		g.note("tload %d", k)
	case n < 31:
		t := r.Intn(5)
		for i := 0; i < t; i++ {
			g.pushVal(a)
		}
		a.Push(0x20 * r.Intn(3)).Push(0).Op(vm.LOG0 + vm.OpCode(t))
		g.note("log%d", t)
		g.hit("log")
	case n < 38:
		ad := g.addr()
		ops := []vm.OpCode{vm.EXTCODESIZE, vm.EXTCODEHASH, vm.EXTCODEHASH, vm.BALANCE}
		if g.noval {
			ops = ops[:3]
		}
		op := ops[r.Intn(len(ops))]
		a.Push(ad).Op(op)
		g.acc(a)
		g.note("%s %s", op, g.name(ad))
		g.hit("extobs")
	case n < 40:
		if g.noval {
			a.Op(vm.ADDRESS)
		} else {
			a.Op(vm.SELFBALANCE)
		}
		g.acc(a)
		g.note("selfbalance")
	case n < 42:
		ad := g.addr()
		a.Push(r.Intn(70)).Push(r.Intn(20)).Push(0x60).Push(ad).Op(vm.EXTCODECOPY)
		a.Push(0x50).Push(0x60).Op(vm.KECCAK256)
		g.acc(a)
		g.note("extcodecopy %s", g.name(ad))
	case n < 47:
		op := envOps[r.Intn(len(envOps))]
		a.Op(op)
		g.acc(a)
		g.note("%s", op)
	case n < 51:
		a.Op(vm.GAS)
		g.acc(a)
		g.note("gas")
		g.hit("gasobs")
	case n < 53:
		// hash of whatever return data is there
		a.Op(vm.RETURNDATASIZE).Push(0).Push(0x100).Op(vm.RETURNDATACOPY)
		a.Op(vm.RETURNDATASIZE).Push(0x100).Op(vm.KECCAK256)
		g.acc(a)
		g.note("returndata")
	case n < 55:
		// standard precompiles
		p := 1 + r.Intn(9)
		if p == 8 || p == 9 {
			p = 4
		}
		a.Push(0x20).Push(0x60).Push(0x40).Push(0).Push(common.BytesToAddress([]byte{byte(p)}))
		gs := g.callGas(a)
		a.Op(vm.STATICCALL)
		g.acc(a)
		a.Push(0x60).Op(vm.MLOAD)
		g.acc(a)
		g.note("precompile %d gas %s", p, gs)
		g.hit("precompile")
	case n < 80:
		g.callStmt(a)
	case n < 88:
		g.createStmt(a)
	case n < 89:
		// memory growth
		a.Push(1).Push(0x200 + r.Intn(0x4000)).Op(vm.MSTORE8)
		g.note("mgrow")
	case n < 92:
		// short loop around a storage write
		g.lbl++
		l := fmt.Sprintf("l%d", g.lbl)
		a.Push(1+r.Intn(4)).Label(l).Op(vm.DUP1, vm.DUP1, vm.SSTORE).Push(1).Op(vm.SWAP1, vm.SUB, vm.DUP1).PushLabel(l).Op(vm.JUMPI, vm.POP)
		g.note("loop")
	case n < 98:
		// what an account looks like from inside, right after a call or during construction
		who := []vm.OpCode{vm.ADDRESS, vm.CALLER, vm.ADDRESS, vm.ORIGIN}[r.Intn(4)]
		ops := []vm.OpCode{vm.EXTCODESIZE, vm.EXTCODEHASH, vm.EXTCODEHASH, vm.BALANCE}
		if g.noval {
			ops = ops[:3]
		}
		op := ops[r.Intn(len(ops))]
		a.Op(who, op)
		g.acc(a)
		a.Op(vm.RETURNDATASIZE)
		g.acc(a)
		g.note("%s(%s) returndatasize", op, who)
		g.hit("selfobs")
	default:
		if !allowTerm {
			a.Op(vm.GAS)
			g.acc(a)
			return false
		}
		return g.term(a, r.Intn(8))
	}
	return false
}

func (g *gen) name(ad common.Address) string {
	for i, x := range g.addrs {
		if x == ad {
			return fmt.Sprintf("@%d", i)
		}
	}
	return ad.Hex()
}

func (g *gen) callStmt(a *verifkit.Asm) {
	r := g.rng
	op := []vm.OpCode{vm.CALL, vm.CALL, vm.CALL, vm.DELEGATECALL, vm.STATICCALL, vm.CALLCODE}[r.Intn(6)]
	// input: selector byte then accumulator
	sel := r.Intn(3)
	a.Push(0).Op(vm.MLOAD).Push(0x81).Op(vm.MSTORE).Push(sel).Push(0x80).Op(vm.MSTORE8)
	outLen := []int{0, 0x20, 0x40}[r.Intn(3)]
	a.Push(outLen).Push(0xc0).Push(0x21 * r.Intn(2)).Push(0x80)
	val := 0
	if op == vm.CALL || op == vm.CALLCODE {
		val = g.value()
		a.Push(val)
	}
	to := "last"
	if r.Intn(6) == 0 {
		a.Push(0x60).Op(vm.MLOAD)
	} else {
		ad := g.addr()
		to = g.name(ad)
		a.Push(ad)
	}
	gs := g.callGas(a)
	a.Op(op)
	g.acc(a)
	if r.Intn(2) == 0 {
		a.Op(vm.RETURNDATASIZE)
		g.acc(a)
	}
	if outLen > 0 && r.Intn(2) == 0 {
		a.Push(0xc0).Op(vm.MLOAD)
		g.acc(a)
	}
	g.note("%s %s sel %d val %d gas %s", op, to, sel, val, gs)
	g.hit("call")
	if val > 0 {
		g.hit("valuecall")
	}
}

func (g *gen) createStmt(a *verifkit.Asm) {
	r := g.rng
	if g.depth >= 2 {
		a.Push(g.addr()).Op(vm.EXTCODEHASH)
		g.acc(a)
		return
	}
	init := g.initCode()
	if len(init) > 1500 {
		init = init[:1500]
	}
	// place init code in memory at 0x200 through CODECOPY of an appended data segment is
	// position dependent; writing words is simple and costs no jump analysis.
	a.MstoreBytes(0x200, init)
	val := g.value()
	if r.Intn(2) == 0 {
		a.Push(len(init)).Push(0x200).Push(val).Op(vm.CREATE)
		g.note("create val %d", val)
	} else {
		salt := r.Intn(2)
		a.Push(salt).Push(len(init)).Push(0x200).Push(val).Op(vm.CREATE2)
		g.note("create2 val %d salt %d", val, salt)
	}
	a.Op(vm.DUP1).Push(0x60).Op(vm.MSTORE)
	g.acc(a)
	a.Op(vm.RETURNDATASIZE)
	g.acc(a)
	g.hit("create")
}

// term ends a program.
func (g *gen) term(a *verifkit.Asm, kind int) bool {
	switch kind {
	case 0:
		a.Op(vm.INVALID)
		g.note("invalid")
		g.hit("invalid")
	case 1, 2:
		a.RevertMem(0, 0x20)
		g.note("revert")
		g.hit("revert")
	case 3, 4:
		ad := g.addr()
		if g.rng.Intn(3) == 0 {
			a.Op(vm.ADDRESS)
			g.note("selfdestruct self")
		} else {
			a.Push(ad)
			g.note("selfdestruct %s", g.name(ad))
		}
		a.Op(vm.SELFDESTRUCT)
		g.hit("selfdestruct")
	case 5:
		a.Op(vm.STOP)
	default:
		a.ReturnMem(0, 0x20)
	}
	return true
}

// body emits statements and an ending.
func (g *gen) body(a *verifkit.Asm, n int, endings []int) {
	for i := 0; i < n; i++ {
		if g.stmt(a, true) {
			return
		}
	}
	g.term(a, endings[g.rng.Intn(len(endings))])
}

// runtime is a contract with three entry points chosen by the first calldata byte.
func (g *gen) runtime(stmts int) []byte {
	a := verifkit.NewAsm()
	a.Op(vm.CALLER).Push(0).Op(vm.MSTORE)
	a.Push(0).Op(vm.CALLDATALOAD).Push(248).Op(vm.SHR)
	pfx := fmt.Sprintf("s%d_", g.lbl)
	g.lbl++
	a.Op(vm.DUP1).Push(1).Op(vm.EQ).PushLabel(pfx + "1").Op(vm.JUMPI)
	a.Push(2).Op(vm.EQ).PushLabel(pfx + "2").Op(vm.JUMPI)
	for s := 0; s < 3; s++ {
		g.note("entry %d:", s)
		if s > 0 {
			a.Label(fmt.Sprintf("%s%d", pfx, s))
		}
		g.body(a, 1+stmts/3+g.rng.Intn(stmts), []int{6, 6, 6, 7, 1, 5, 3, 0})
	}
	return a.Bytes()
}

// initCode builds deployment code, sometimes with a constructor.
func (g *gen) initCode() []byte {
	r := g.rng
	switch r.Intn(12) {
	case 0:
		return verifkit.NewAsm().RevertMem(0, 0x20).Bytes()
	case 1:
		return []byte{}
	case 2: // 0xEF code
		return verifkit.NewAsm().Push(0xEF).Push(0).Op(vm.MSTORE8).ReturnMem(0, 1).Bytes()
	case 3: // too large
		return verifkit.NewAsm().ReturnMem(0, 24577).Bytes()
	case 4: // constructor that destroys itself
		return verifkit.NewAsm().Sstore(1, 2).Push(g.addr()).Op(vm.SELFDESTRUCT).Bytes()
	}
	g.depth++
	defer func() { g.depth-- }()
	g.note("[init")
	a := verifkit.NewAsm()
	if r.Intn(3) > 0 {
		for i := 0; i < 1+r.Intn(4); i++ {
			g.stmt(a, false)
		}
		if r.Intn(4) == 0 {
			// deploy what the constructor saw
			a.ReturnMem(0, 0x20)
			g.note("returns acc]")
			return a.Bytes()
		}
	}
	g.note("runtime")
	rt := g.runtime(2)
	g.note("]")
	a.MstoreBytes(0x600, rt)
	a.ReturnMem(0x600, len(rt))
	return a.Bytes()
}

// rawCode is unstructured bytes, biased to valid opcodes.
func (g *gen) rawCode() []byte {
	n := 5 + g.rng.Intn(120)
	var b []byte
	ops := []vm.OpCode{vm.ADD, vm.MUL, vm.SUB, vm.DIV, vm.SDIV, vm.MOD, vm.SMOD, vm.ADDMOD, vm.MULMOD, vm.EXP, vm.SIGNEXTEND, vm.LT, vm.GT, vm.SLT, vm.SGT, vm.EQ, vm.ISZERO, vm.AND, vm.OR, vm.XOR, vm.NOT, vm.BYTE, vm.SHL, vm.SHR, vm.SAR,
		vm.KECCAK256, vm.ADDRESS, vm.ORIGIN, vm.CALLER, vm.CALLVALUE, vm.CALLDATALOAD, vm.CALLDATASIZE, vm.CALLDATACOPY, vm.CODESIZE, vm.CODECOPY, vm.GASPRICE, vm.EXTCODESIZE, vm.RETURNDATASIZE, vm.EXTCODEHASH, vm.NUMBER, vm.MLOAD, vm.MSTORE, vm.MSTORE8, vm.SLOAD, vm.SSTORE, vm.PC, vm.MSIZE, vm.GAS, vm.JUMPDEST, vm.TLOAD, vm.TSTORE, vm.MCOPY, vm.PUSH0,
		vm.DUP1, vm.DUP2, vm.DUP3, vm.SWAP1, vm.SWAP2, vm.POP, vm.LOG0, vm.LOG1, vm.BLOBHASH, vm.RETURN, vm.REVERT}
	for len(b) < n {
		switch g.rng.Intn(10) {
		case 0, 1, 2, 3:
			k := 1
			if g.rng.Intn(5) == 0 {
				k = 1 + g.rng.Intn(32)
			}
			b = append(b, byte(vm.PUSH1)+byte(k-1))
			x := make([]byte, k)
			g.rng.Read(x)
			if k <= 2 {
				x[0] &= 0x3f
			}
			b = append(b, x...)
		case 4:
			op := byte(g.rng.Intn(256))
			if op == byte(vm.BLOCKHASH) { // reads the chain's store at the chain's price
				op = byte(vm.NUMBER)
			}
			b = append(b, op)
		default:
			b = append(b, byte(ops[g.rng.Intn(len(ops))]))
		}
	}
	return b
}

func (g *gen) String() string { return strings.Join(g.desc, "; ") }

func createAddr(from common.Address, nonce uint64) common.Address {
	return crypto.CreateAddress(from, nonce)
}

var bigOne = big.NewInt(1)
