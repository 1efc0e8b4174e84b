package verifkit

import (
	"encoding/binary"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
)

// Asm is a small EVM assembler.
type Asm struct {
	B      []byte
	labels map[string]int
	refs   map[int]string
}

func NewAsm() *Asm { return &Asm{labels: map[string]int{}, refs: map[int]string{}} }

func (a *Asm) Op(ops ...vm.OpCode) *Asm {
	for _, o := range ops {
		a.B = append(a.B, byte(o))
	}
	return a
}

// Push pushes the minimal encoding of v.
func (a *Asm) Push(v any) *Asm {
	var bz []byte
	switch x := v.(type) {
	case int:
		bz = big.NewInt(int64(x)).Bytes()
	case uint64:
		bz = new(big.Int).SetUint64(x).Bytes()
	case *big.Int:
		bz = x.Bytes()
	case common.Address:
		bz = x.Bytes()
	case common.Hash:
		bz = x.Bytes()
	case []byte:
		bz = x
	default:
		panic("push")
	}
	if len(bz) == 0 {
		bz = []byte{0}
	}
	a.B = append(a.B, byte(vm.PUSH1)+byte(len(bz)-1))
	a.B = append(a.B, bz...)
	return a
}

func (a *Asm) Label(l string) *Asm {
	a.labels[l] = len(a.B)
	return a.Op(vm.JUMPDEST)
}

func (a *Asm) PushLabel(l string) *Asm {
	a.B = append(a.B, byte(vm.PUSH2))
	a.refs[len(a.B)] = l
	a.B = append(a.B, 0, 0)
	return a
}

func (a *Asm) Sstore(k, v any) *Asm { return a.Push(v).Push(k).Op(vm.SSTORE) }
func (a *Asm) Tstore(k, v any) *Asm { return a.Push(v).Push(k).Op(vm.TSTORE) }

// Call: CALL(gas, to, value, in 0..n, out 0..0); leaves success on stack
func (a *Asm) Call(op vm.OpCode, to common.Address, value any, inOff, inLen int, gas any) *Asm {
	a.Push(0).Push(0).Push(inLen).Push(inOff)
	if op == vm.CALL || op == vm.CALLCODE {
		a.Push(value)
	}
	a.Push(to)
	if gas == nil {
		a.Op(vm.GAS)
	} else {
		a.Push(gas)
	}
	return a.Op(op)
}

// MstoreBytes writes bz at memory offset off.
func (a *Asm) MstoreBytes(off int, bz []byte) *Asm {
	for i := 0; i < len(bz); i += 32 {
		var w [32]byte
		copy(w[:], bz[i:])
		a.Push(w[:]).Push(off + i).Op(vm.MSTORE)
	}
	return a
}

func (a *Asm) Log0(off, n int) *Asm { return a.Push(n).Push(off).Op(vm.LOG0) }

func (a *Asm) ReturnMem(off, n int) *Asm { return a.Push(n).Push(off).Op(vm.RETURN) }
func (a *Asm) RevertMem(off, n int) *Asm { return a.Push(n).Push(off).Op(vm.REVERT) }

func (a *Asm) Bytes() []byte {
	out := append([]byte{}, a.B...)
	for pos, l := range a.refs {
		t, ok := a.labels[l]
		if !ok {
			panic("label " + l)
		}
		binary.BigEndian.PutUint16(out[pos:], uint16(t))
	}
	return out
}

// Deployer wraps runtime code into init code.
func Deployer(runtime []byte) []byte {
	// PUSH2 len DUP1 PUSH2 off PUSH1 0 CODECOPY PUSH1 0 RETURN
	n := len(runtime)
	pre := []byte{byte(vm.PUSH2), byte(n >> 8), byte(n), byte(vm.DUP1), byte(vm.PUSH2), 0, 0, byte(vm.PUSH1), 0, byte(vm.CODECOPY), byte(vm.PUSH1), 0, byte(vm.RETURN)}
	binary.BigEndian.PutUint16(pre[5:], uint16(len(pre)))
	return append(pre, runtime...)
}
