package main

import (
	"fmt"
	"maps"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/initia-labs/minievm/verifkit"
)

// What a transaction makes a node spend must be in proportion to its gas.

// cpuNow is the processor time spent by this process.
func cpuNow() time.Duration {
	var u syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func precompileAddr(n int) common.Address { return common.BytesToAddress([]byte{byte(n)}) }

// a loop around code that leaves the stack as it was
func forever(pre func(a *verifkit.Asm), body func(a *verifkit.Asm)) []byte {
	a := verifkit.NewAsm()
	if pre != nil {
		pre(a)
	}
	a.Label("top")
	body(a)
	a.PushLabel("top").Op(vm.JUMP)
	return a.Bytes()
}

// grown makes memory big
func grown(n int) func(a *verifkit.Asm) {
	return func(a *verifkit.Asm) { a.Push(0).Push(n - 32).Op(vm.MSTORE) }
}

var cosmosAddr = precompileAddr(0xf1)

// costly are programs that do one thing until their gas is gone.
var costly = map[string]func() []byte{
	"add": func() []byte { return forever(nil, func(a *verifkit.Asm) { a.Push(1).Push(2).Op(vm.ADD, vm.POP) }) },
	"exp": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Push(common.MaxHash).Push(common.MaxHash).Op(vm.EXP, vm.POP) })
	},
	"keccak": func() []byte {
		return forever(grown(1<<18), func(a *verifkit.Asm) { a.Push(1<<18).Push(0).Op(vm.KECCAK256, vm.POP) })
	},
	"mcopy": func() []byte {
		return forever(grown(1<<18), func(a *verifkit.Asm) { a.Push(1 << 18).Push(0).Push(0).Op(vm.MCOPY) })
	},
	"sload-new": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1, vm.SLOAD, vm.POP) })
	},
	"sload-old": func() []byte { return forever(nil, func(a *verifkit.Asm) { a.Push(1).Op(vm.SLOAD, vm.POP) }) },
	"sstore-new": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1, vm.DUP1, vm.SSTORE) })
	},
	"sstore-old": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1).Push(7).Op(vm.SSTORE) })
	},
	"tstore": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1, vm.DUP1, vm.TSTORE) })
	},
	"tload": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1, vm.TLOAD, vm.POP) })
	},
	"balance-new": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1, vm.BALANCE, vm.POP) })
	},
	"balance-old": func() []byte { return forever(nil, func(a *verifkit.Asm) { a.Op(vm.ADDRESS, vm.BALANCE, vm.POP) }) },
	"selfbalance": func() []byte { return forever(nil, func(a *verifkit.Asm) { a.Op(vm.SELFBALANCE, vm.POP) }) },
	"extcodesize": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1) }, func(a *verifkit.Asm) { a.Push(1).Op(vm.ADD, vm.DUP1, vm.EXTCODESIZE, vm.POP) })
	},
	"extcodecopy": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Push(1<<10).Push(0).Push(0).Op(vm.ADDRESS, vm.EXTCODECOPY) })
	},
	"extcodehash": func() []byte { return forever(nil, func(a *verifkit.Asm) { a.Op(vm.ADDRESS, vm.EXTCODEHASH, vm.POP) }) },
	"blockhash": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Push(1).Op(vm.NUMBER, vm.SUB, vm.BLOCKHASH, vm.POP) })
	},
	"log":     func() []byte { return forever(nil, func(a *verifkit.Asm) { a.Log0(0, 0) }) },
	"log-big": func() []byte { return forever(grown(1<<14), func(a *verifkit.Asm) { a.Log0(0, 1<<14) }) },
	"call-eoa": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Call(vm.CALL, collectorAddr, 0, 0, 0, nil).Op(vm.POP) })
	},
	"staticcall-eoa": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, collectorAddr, 0, 0, 0, nil).Op(vm.POP) })
	},
	"call-new": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(1000) }, func(a *verifkit.Asm) {
			a.Push(1).Op(vm.ADD)
			a.Push(0).Push(0).Push(0).Push(0).Push(0).Op(vm.DUP6, vm.GAS, vm.CALL, vm.POP)
		})
	},
	"create": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Push(0).Push(0).Push(0).Op(vm.CREATE, vm.POP) })
	},
	"create-big": func() []byte { // 48 KiB of JUMPDESTs to look through
		return forever(func(a *verifkit.Asm) {
			a.Push(common.HexToHash("0x" + strings.Repeat("5b", 32)))
			a.Push(0).Op(vm.MSTORE)
			for n := 32; n < 49152; n *= 2 {
				a.Push(min(n, 49152-n)).Push(0).Push(n).Op(vm.MCOPY)
			}
		}, func(a *verifkit.Asm) { a.Push(49152).Push(0).Push(0).Op(vm.CREATE, vm.POP) })
	},
	"destroy": func() []byte { // create and destroy
		init := []byte{byte(vm.ADDRESS), byte(vm.SELFDESTRUCT)}
		return forever(func(a *verifkit.Asm) { a.MstoreBytes(0, append(init, make([]byte, 30)...)) }, func(a *verifkit.Asm) { a.Push(2).Push(0).Push(0).Op(vm.CREATE, vm.POP) })
	},
	"ecrecover": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(1), 0, 0, 128, nil).Op(vm.POP) })
	},
	"sha256": func() []byte {
		return forever(grown(1<<16), func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(2), 0, 0, 1<<16, nil).Op(vm.POP) })
	},
	"ripemd": func() []byte {
		return forever(grown(1<<16), func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(3), 0, 0, 1<<16, nil).Op(vm.POP) })
	},
	"identity": func() []byte {
		return forever(grown(1<<20), func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(4), 0, 0, 1<<20, nil).Op(vm.POP) })
	},
	"modexp": func() []byte {
		return forever(func(a *verifkit.Asm) {
			for i, n := range []int{256, 32, 256} {
				a.Push(n).Push(32 * i).Op(vm.MSTORE)
			}
			for i := 3; i < 24; i++ {
				a.Push(common.MaxHash).Push(32 * i).Op(vm.MSTORE)
			}
		}, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(5), 0, 0, 96+544, nil).Op(vm.POP) })
	},
	"bn-add": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(6), 0, 0, 128, nil).Op(vm.POP) })
	},
	"pairing": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(8), 0, 0, 1920, nil).Op(vm.POP) })
	},
	"blake2f": func() []byte {
		return forever(func(a *verifkit.Asm) { a.Push(0x10000).Push(224).Op(vm.SHL).Push(0).Op(vm.MSTORE) }, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(9), 0, 0, 213, nil).Op(vm.POP) })
	},
	"kzg": func() []byte {
		return forever(nil, func(a *verifkit.Asm) { a.Call(vm.STATICCALL, precompileAddr(10), 0, 0, 192, 60_000).Op(vm.POP) })
	},
	"revert-child": func() []byte { // writes undone, again and again, one frame below
		return forever(func(a *verifkit.Asm) {
			// calldata nonempty = child: store and revert
			a.Op(vm.CALLDATASIZE).Push(32).Op(vm.EQ).PushLabel("child").Op(vm.JUMPI)
			a.PushLabel("top").Op(vm.JUMP)
			a.Label("child").Op(vm.GAS, vm.GAS, vm.SSTORE).Push(0).Push(0).Op(vm.REVERT)
		}, func(a *verifkit.Asm) {
			a.Push(0).Push(0).Push(32).Push(0).Push(0).Op(vm.ADDRESS).Push(60_000).Op(vm.CALL, vm.POP)
		})
	},
	"recurse": func() []byte { // as deep as it goes, again and again
		return forever(nil, func(a *verifkit.Asm) {
			a.Push(0).Push(0).Push(0).Push(0).Push(0).Op(vm.ADDRESS, vm.GAS, vm.CALL, vm.POP)
		})
	},
	"recurse-static": func() []byte {
		return forever(nil, func(a *verifkit.Asm) {
			a.Push(0).Push(0).Push(0).Push(0).Op(vm.ADDRESS, vm.GAS, vm.STATICCALL, vm.POP)
		})
	},
	"recurse-sload": func() []byte { // 150 deep, then read new slots
		return deep(150, func(a *verifkit.Asm) {
			a.Op(vm.GAS, vm.SLOAD, vm.POP)
		})
	},
	"recurse-balance": func() []byte {
		return deep(150, func(a *verifkit.Asm) { a.Op(vm.GAS, vm.BALANCE, vm.POP) })
	},
	"recurse-log": func() []byte {
		return deep(150, func(a *verifkit.Asm) { a.Log0(0, 0) })
	},
	"recurse-call": func() []byte {
		return deep(150, func(a *verifkit.Asm) { a.Call(vm.CALL, collectorAddr, 0, 0, 0, 0).Op(vm.POP) })
	},
	"recurse-access": func() []byte { // warm addresses and slots, deep down
		return deep(150, func(a *verifkit.Asm) { a.Push(1).Op(vm.SLOAD, vm.POP) })
	},
	"cosmos-blocked": func() []byte { return cosmosLoop(0, nil, "is_blocked_address", collectorAddr) },
	"cosmos-module":  func() []byte { return cosmosLoop(0, nil, "is_module_address", collectorAddr) },
	"cosmos-toaddr":  func() []byte { return cosmosLoop(0, nil, "to_cosmos_address", collectorAddr) },
	"cosmos-denom":   func() []byte { return cosmosLoop(0, nil, "to_denom", collectorAddr) },
	"cosmos-erc20":   func() []byte { return cosmosLoop(0, nil, "to_erc20", "nodenom") },
	"cosmos-exec": func() []byte {
		return cosmosLoop(0, nil, "execute_cosmos", `{"@type":"/minievm.evm.v1.MsgCall","sender":"x","contract_addr":"x","input":"","value":"0"}`)
	},
	"cosmos-query": func() []byte {
		return cosmosLoop(0, nil, "query_cosmos", "/connect.oracle.v2.Query/GetAllCurrencyPairs", `{}`)
	},
	"cosmos-nonsense":    func() []byte { return cosmosLoop(1<<20, 10, "") },
	"cosmos-unpack":      func() []byte { return cosmosBig(10, "to_erc20") },
	"cosmos-unpack-exec": func() []byte { return cosmosBig(10, "execute_cosmos") },
	"cosmos-big-denom":   func() []byte { return cosmosBig(nil, "to_erc20") },
	"cosmos-big-exec":    func() []byte { return cosmosBig(nil, "execute_cosmos") },
	"cosmos-dispatch": func() []byte { // 30 messages
		return func() []byte {
			a := verifkit.NewAsm()
			a.Op(vm.CALLDATASIZE).PushLabel("go").Op(vm.JUMPI, vm.STOP).Label("go")
			a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CALLDATACOPY)
			for i := 0; i < 30; i++ {
				a.Push(0).Push(0).Op(vm.CALLDATASIZE).Push(0).Push(0).Push(cosmosAddr).Op(vm.GAS, vm.CALL, vm.POP)
			}
			return a.Op(vm.STOP).Bytes()
		}()
	},
	"panic": func() []byte { // work and panic
		a := verifkit.NewAsm()
		grown(1<<18 + 128)(a)
		a.Label("l").Push(300_000).Op(vm.GAS, vm.GT).PushLabel("l").Op(vm.JUMPI)
		in := pack(cosmosABI, "to_erc20", strings.Repeat("d", 1<<18))
		in = in[:100]
		return a.MstoreBytes(0, in).Call(vm.CALL, cosmosAddr, 0, 0, 68+1<<18, nil).Op(vm.POP, vm.STOP).Bytes()
	},
	"halt": func() []byte { // work and halt
		return verifkit.NewAsm().Label("l").Push(50_000).Op(vm.GAS, vm.GT).PushLabel("l").Op(vm.JUMPI, vm.INVALID).Bytes()
	},
	"value-panic": func() []byte { // work and pay a module
		a := verifkit.NewAsm()
		a.Label("l").Push(80_000).Op(vm.GAS, vm.GT).PushLabel("l").Op(vm.JUMPI)
		return a.Call(vm.CALL, collectorAddr, 1, 0, 0, nil).Op(vm.POP, vm.STOP).Bytes()
	},
	"cosmos-nested": func() []byte {
		return cosmosPattern(`{"@type":"/cosmos.authz.v1beta1.MsgExec","grantee":"x","msgs":[`, 4096)
	},
	"cosmos-nested-more": func() []byte {
		return cosmosPattern(`{"@type":"/cosmos.authz.v1beta1.MsgExec","grantee":"x","msgs":[`, 9600)
	},
	"cosmos-closed": func() []byte {
		return cosmosPattern(`{"@type":"/cosmos.authz.v1beta1.MsgExec","grantee":"x","msgs":[`, 4096, "]}")
	},
	"cosmos-any":          func() []byte { return cosmosPattern(`{"@type":"/google.protobuf.Any","value":`, 4096, "}") },
	"cosmos-array":        func() []byte { return cosmosPattern(`[`, 1<<15) },
	"cosmos-keys":         func() []byte { return cosmosPattern(`{"a":`, 1<<15) },
	"registry-register":   func() []byte { return registryLoop("register_erc20") },
	"registry-store":      func() []byte { return registryLoop("register_erc20_store", collectorAddr) },
	"registry-registered": func() []byte { return registryLoop("is_erc20_store_registered", collectorAddr) },
}

// deep calls itself n times and then repeats body.
func deep(n int, body func(a *verifkit.Asm)) []byte {
	return forever(func(a *verifkit.Asm) {
		a.Push(0).Op(vm.CALLDATALOAD, vm.DUP1).Push(n).Op(vm.EQ).PushLabel("top").Op(vm.JUMPI)
		a.Push(1).Op(vm.ADD).Push(0).Op(vm.MSTORE)
		a.Push(0).Push(0).Push(32).Push(0).Push(0).Op(vm.ADDRESS, vm.GAS, vm.CALL, vm.STOP)
	}, body)
}

func cosmosLoop(size int, gas any, method string, args ...any) []byte {
	in := []byte("nonsense")
	if method != "" {
		in = pack(cosmosABI, method, args...)
	}
	return forever(func(a *verifkit.Asm) {
		if size > 0 {
			grown(size)(a)
		}
		a.MstoreBytes(0, in)
	}, func(a *verifkit.Asm) { a.Call(vm.CALL, cosmosAddr, 0, 0, max(size, len(in)), gas).Op(vm.POP) })
}

// cosmosBig calls with a string of 1 MiB of brackets.
func cosmosBig(gas any, method string) []byte {
	const size = 1 << 20
	in := pack(cosmosABI, method, "")
	return forever(func(a *verifkit.Asm) {
		grown(size + 68)(a)
		a.Push(common.HexToHash("0x" + strings.Repeat("7b", 32))).Push(96).Op(vm.MSTORE)
		for n := 32; n < size-96; n *= 2 {
			a.Push(min(n, size-96-n)).Push(96).Push(96 + n).Op(vm.MCOPY)
		}
		a.MstoreBytes(0, in[:36])
		a.Push(size).Push(36).Op(vm.MSTORE)
	}, func(a *verifkit.Asm) { a.Call(vm.CALL, cosmosAddr, 0, 0, size+68, gas).Op(vm.POP) })
}

// cosmosPattern calls execute_cosmos with n times the same text.
func cosmosPattern(text string, n int, end ...string) []byte {
	for len(text)%32 != 0 {
		text += " "
	}
	size := len(text) * n
	e := " "
	if len(end) > 0 {
		e = end[0]
	}
	in := pack(cosmosABI, "execute_cosmos", "")
	return forever(func(a *verifkit.Asm) {
		grown(size + n*len(e) + 128)(a)
		a.MstoreBytes(68, []byte(text))
		for at := len(text); at < size; at *= 2 {
			a.Push(min(at, size-at)).Push(68).Push(68 + at).Op(vm.MCOPY)
		}
		if n%(32/len(e)) != 0 {
			panic("end")
		}
		a.MstoreBytes(68+size, []byte(strings.Repeat(e, 32/len(e))))
		for at := 32; at < n*len(e); at *= 2 {
			a.Push(min(at, n*len(e)-at)).Push(68 + size).Push(68 + size + at).Op(vm.MCOPY)
		}
		size += n * len(e)
		a.MstoreBytes(0, in[:36])
		a.Push(size).Push(36).Op(vm.MSTORE)
		a.MstoreBytes(68, []byte(text))
	}, func(a *verifkit.Asm) { a.Call(vm.CALL, cosmosAddr, 0, 0, size+68, size+10_000).Op(vm.POP) })
}

func registryLoop(method string, args ...any) []byte {
	in := pack(registryABI, method, args...)
	return forever(func(a *verifkit.Asm) { a.MstoreBytes(0, in) }, func(a *verifkit.Asm) { a.Call(vm.CALL, registryPrecompile, 0, 0, len(in), nil).Op(vm.POP) })
}

// costGas is the gas of the programs, which are also run with a quarter of it.
func costGas(k string) uint64 {
	switch {
	case strings.HasPrefix(k, "recurse-"): // most of it does not get down there
		return 20_000_000
	case k == "selfbalance":
		return 1_000_000
	case k == "call-new", k == "balance-new", k == "cosmos-query", k == "cosmos-closed":
		return 8_000_000
	}
	return 4_000_000
}

// spent is what a node spends on a transaction.
type spent struct {
	used  int64
	code  uint32
	cpu   time.Duration
	alloc uint64
	log   string
}

func measure(c *verifkit.Chain, tx []byte, limit time.Duration) *spent {
	runtime.GC()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t0 := cpuNow()
	res, _, stuck := watched(c, limit, tx)
	cpu := cpuNow() - t0
	runtime.ReadMemStats(&m1)
	if stuck || res == nil {
		return nil
	}
	t := res.TxResults[0]
	return &spent{t.GasUsed, t.Code, cpu, m1.TotalAlloc - m0.TotalAlloc, t.Log}
}

// l01Cost runs every program and looks at what the node spends on it. A unit of gas may cost 25
// times what a transient write costs, and that must not depend on how much gas there is.
func l01Cost(r *R, id string, rng *rand.Rand) {
	c := verifkit.NewChain(verifkit.Config{NAcc: 2, GasPrice: "0.15"})
	user := c.Accs[0]
	run := func(k string, t common.Address, gas uint64, in []byte) *spent {
		value := new(big.Int)
		if k == "value-panic" {
			value.SetInt64(1_000_000_000_000)
		}
		s := measure(c, c.Eth(user, verifkit.EthTx{Type: 2, Nonce: c.Seq(user.Acc), To: &t, Value: value, Data: in, Gas: gas, FeeCap: gasPrice(c)}), 180*time.Second)
		r.Eval(1)
		if s == nil {
			r.Violate(id, "cost-stuck|"+k, "%s: a transaction with %d gas was not done in three minutes: %v", k, gas, c.HaltErr)
			return nil
		}
		r.Count("gas_burnt", int(s.used))
		return s
	}
	deploy := func(k string) (common.Address, []byte) {
		t := deployEth(c, user, verifkit.Deployer(costly[k]()))
		if k == "cosmos-dispatch" {
			msg := fmt.Sprintf(`{"@type":"/minievm.evm.v1.MsgCall","sender":"%s","contract_addr":"%s","input":"0x","value":"0"}`, sdk.AccAddress(t[:]), t)
			return t, pack(cosmosABI, "execute_cosmos", msg)
		}
		return t, nil
	}
	// how fast is this machine?
	yard, _ := deploy("tstore")
	unit := 0.0
	for i := 0; i < 3; i++ {
		s := run("tstore", yard, 4_000_000, nil)
		if s == nil {
			return
		}
		unit = max(unit, float64(s.cpu)/float64(s.used))
	}
	r.Count("unit_ps", int(unit*1000))
	for _, k := range slices.Sorted(maps.Keys(costly)) {
		if f := os.Getenv("COST"); f != "" && !strings.Contains(k, f) {
			continue
		}
		t, in := deploy(k)
		var s [2]*spent
		for i, gas := range []uint64{costGas(k) / 4, costGas(k)} {
			if s[i] = run(k, t, gas, in); s[i] == nil {
				return
			}
			if float64(s[i].used) < float64(gas)*0.9 && !finishes[k] {
				r.Violate(id, "cost-uncharged|"+k, "%s: a transaction used up %d gas, but was charged %d: %.200s", k, gas, s[i].used, s[i].log)
			}
		}
		per, alloc := float64(s[1].cpu)/float64(s[1].used), float64(s[1].alloc)/float64(s[1].used)
		r.Distinct("cost|" + k)
		r.Count("programs", 1)
		r.Sample("%s: %.1f ns and %.1f B per gas (%.1f times a transient write), with a quarter of the gas %.1f ns", k, per, alloc, per/unit, float64(s[0].cpu)/float64(s[0].used))
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Printf("%-20s used=%d code=%d cpu=%s per=%.1fns quarter=%.1fns times=%.1f alloc=%.1fB %.60q\n", k, s[1].used, s[1].code, s[1].cpu, per, float64(s[0].cpu)/float64(s[0].used), per/unit, alloc, s[1].log)
		}
		switch {
		case s[1].cpu > 1500*time.Millisecond && float64(s[1].cpu) > 9*float64(s[0].cpu):
			r.Violate(id, "cost-grows|"+k, "%s: %d gas took %s of processor time, but %d took %s", k, s[1].used, s[1].cpu, s[0].used, s[0].cpu)
		case s[1].cpu > time.Second && per > 25*unit, k == "selfbalance" && per > 12*unit:
			r.Violate(id, "cost-time|"+k, "%s: %d gas took %s of processor time, %.0f times as much per gas as writing transient storage", k, s[1].used, s[1].cpu, per/unit)
		case alloc > 1000 && s[1].alloc > 500<<20:
			r.Violate(id, "cost-memory|"+k, "%s: %d gas allocated %d bytes", k, s[1].used, s[1].alloc)
		}
	}
}

// finishes are programs which do not use up their gas.
var finishes = map[string]bool{"recurse-access": true, "recurse-balance": true, "recurse-call": true, "recurse-log": true, "recurse-sload": true, "cosmos-dispatch": true}
