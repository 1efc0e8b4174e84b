package main

import (
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	"github.com/initia-labs/minievm/verifkit"
)

// The puppet is a contract that carries out the records of its calldata.
const (
	pCall = iota
	pCallCatch
	pDelegate
	pStatic
	pCallcode
	pSstore
	pTstore
	pLog
	pRevert
	pInvalid
	pSelfdestruct
	pCreateCatch
	pCreate
	pCreate2
	pLoop
	pReturn
	pSloadLog
	pDelegateMust
	pCallGas // CALL with gas a2 and no value
	pTloadLog
	pCallRet   // CALL with gas 600000, then LOG1(a2): success word and what was returned
	pStaticRet // the same by STATICCALL
	pNops
)

// Rec is one record: operation, two words and data.
type Rec struct {
	Op     int
	A1, A2 *big.Int
	Data   []byte
}

func (r Rec) enc() []byte {
	w := func(b *big.Int) []byte {
		if b == nil {
			b = new(big.Int)
		}
		return common.BigToHash(b).Bytes()
	}
	out := w(big.NewInt(int64(r.Op)))
	out = append(out, w(r.A1)...)
	out = append(out, w(r.A2)...)
	out = append(out, w(big.NewInt(int64(len(r.Data))))...)
	return append(out, r.Data...)
}

func script(recs ...Rec) []byte {
	var out []byte
	for _, r := range recs {
		out = append(out, r.enc()...)
	}
	return out
}

func rec(op int, a1, a2 any, data []byte) Rec {
	c := func(a any) *big.Int {
		switch x := a.(type) {
		case nil:
			return nil
		case int:
			return big.NewInt(int64(x))
		case *big.Int:
			return x
		case common.Address:
			return x.Big()
		}
		panic("rec")
	}
	return Rec{op, c(a1), c(a2), data}
}

func puppetCode() []byte {
	a := verifkit.NewAsm()
	a.Push(0)
	a.Label("L")
	a.Op(vm.DUP1, vm.CALLDATASIZE, vm.GT, vm.ISZERO).PushLabel("end").Op(vm.JUMPI)
	a.Op(vm.DUP1).Push(96).Op(vm.ADD, vm.CALLDATALOAD)
	a.Op(vm.DUP1, vm.DUP3).Push(128).Op(vm.ADD).Push(0).Op(vm.CALLDATACOPY)
	a.Op(vm.DUP2, vm.CALLDATALOAD)
	for k := 0; k < pNops; k++ {
		a.Op(vm.DUP1).Push(k).Op(vm.EQ).PushLabel(fmt.Sprint("op", k)).Op(vm.JUMPI)
	}
	a.Label("next")
	// [off,len,op]
	a.Op(vm.POP, vm.ADD).Push(128).Op(vm.ADD).PushLabel("L").Op(vm.JUMP)
	arg := func(depth int, n int) { // depth: position of off from the top (1-based)
		a.Op(vm.OpCode(byte(vm.DUP1)+byte(depth-1))).Push(32*n).Op(vm.ADD, vm.CALLDATALOAD)
	}
	next := func() { a.PushLabel("next").Op(vm.JUMP) }
	call := func(k int, op vm.OpCode, must bool) {
		a.Label(fmt.Sprint("op", k))
		a.Push(0).Push(0).Op(vm.DUP4).Push(0) // out, in; off is 7th
		d := 7
		if op == vm.CALL || op == vm.CALLCODE {
			if k == pCallGas {
				a.Push(0)
			} else {
				arg(d, 2)
			}
			d++
		}
		arg(d, 1)
		d++
		if k == pCallGas {
			arg(d, 2)
		} else {
			a.Op(vm.GAS)
		}
		a.Op(op)
		if must {
			a.Op(vm.ISZERO).PushLabel("fail").Op(vm.JUMPI)
		} else {
			a.Op(vm.POP)
		}
		next()
	}
	call(pCall, vm.CALL, true)
	call(pCallCatch, vm.CALL, false)
	call(pDelegate, vm.DELEGATECALL, false)
	call(pDelegateMust, vm.DELEGATECALL, true)
	call(pStatic, vm.STATICCALL, false)
	call(pCallcode, vm.CALLCODE, false)
	call(pCallGas, vm.CALL, false)
	a.Label(fmt.Sprint("op", pSstore))
	arg(3, 2)
	arg(4, 1)
	a.Op(vm.SSTORE)
	next()
	a.Label(fmt.Sprint("op", pTstore))
	arg(3, 2)
	arg(4, 1)
	a.Op(vm.TSTORE)
	next()
	// LOGn: topics a2, a2+1, ...
	a.Label(fmt.Sprint("op", pLog))
	for n := 0; n <= 4; n++ {
		arg(3, 1)
		a.Push(n).Op(vm.EQ).PushLabel(fmt.Sprint("log", n)).Op(vm.JUMPI)
	}
	next()
	for n := 0; n <= 4; n++ {
		a.Label(fmt.Sprint("log", n))
		for t := n - 1; t >= 0; t-- {
			arg(3+(n-1-t), 2)
			a.Push(t).Op(vm.ADD)
		}
		// size, offset
		a.Op(vm.OpCode(byte(vm.DUP1) + byte(n+1))).Push(0).Op(vm.OpCode(byte(vm.LOG0) + byte(n)))
		next()
	}
	a.Label(fmt.Sprint("op", pRevert))
	a.Op(vm.DUP2).Push(0).Op(vm.REVERT)
	a.Label(fmt.Sprint("op", pInvalid))
	a.Op(vm.INVALID)
	a.Label(fmt.Sprint("op", pSelfdestruct))
	arg(3, 1)
	a.Op(vm.SELFDESTRUCT)
	for _, k := range []int{pCreateCatch, pCreate} {
		a.Label(fmt.Sprint("op", k))
		a.Op(vm.DUP2).Push(0)
		arg(5, 2)
		a.Op(vm.CREATE)
		if k == pCreate {
			a.Op(vm.ISZERO).PushLabel("fail").Op(vm.JUMPI)
		} else {
			a.Op(vm.POP)
		}
		next()
	}
	a.Label(fmt.Sprint("op", pCreate2))
	arg(3, 1)
	a.Op(vm.DUP3).Push(0)
	arg(6, 2)
	a.Op(vm.CREATE2, vm.POP)
	next()
	a.Label(fmt.Sprint("op", pLoop))
	arg(3, 1)
	a.Label("spin").Push(1).Op(vm.SWAP1, vm.SUB, vm.DUP1).PushLabel("spin").Op(vm.JUMPI, vm.POP)
	next()
	a.Label(fmt.Sprint("op", pReturn))
	a.Op(vm.DUP2).Push(0).Op(vm.RETURN)
	for _, k := range []int{pSloadLog, pTloadLog} {
		a.Label(fmt.Sprint("op", k))
		arg(3, 1)
		if k == pSloadLog {
			a.Op(vm.SLOAD)
		} else {
			a.Op(vm.TLOAD)
		}
		a.Push(0).Op(vm.MSTORE)
		arg(3, 1)
		a.Push(32).Push(0).Op(vm.LOG1)
		next()
	}
	for _, k := range []int{pCallRet, pStaticRet} {
		a.Label(fmt.Sprint("op", k))
		a.Push(0).Push(0).Op(vm.DUP4).Push(0)
		d := 7
		if k == pCallRet {
			a.Push(0)
			d++
		}
		arg(d, 1)
		a.Push(600_000)
		if k == pCallRet {
			a.Op(vm.CALL)
		} else {
			a.Op(vm.STATICCALL)
		}
		a.Push(0).Op(vm.MSTORE)
		a.Op(vm.RETURNDATASIZE).Push(0).Push(32).Op(vm.RETURNDATACOPY)
		arg(3, 2)
		a.Op(vm.RETURNDATASIZE).Push(32).Op(vm.ADD).Push(0).Op(vm.LOG1)
		next()
	}
	a.Label("end").Op(vm.STOP)
	a.Label("fail").RevertMem(0, 0)
	return a.Bytes()
}
