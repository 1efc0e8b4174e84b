package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"

	"github.com/initia-labs/minievm/verifkit"
)

func mustABI(a *abi.ABI, err error) *abi.ABI {
	if err != nil {
		panic(err)
	}
	return a
}

var (
	cosmosABI   = mustABI(i_cosmos.ICosmosMetaData.GetAbi())
	registryABI = mustABI(i_erc20_registry.IErc20RegistryMetaData.GetAbi())
	erc20ABI    = mustABI(erc20.Erc20MetaData.GetAbi())
	factoryABI  = mustABI(erc20_factory.Erc20FactoryMetaData.GetAbi())
)

func pack(a *abi.ABI, m string, args ...any) []byte {
	bz, err := a.Pack(m, args...)
	if err != nil {
		panic(err)
	}
	return bz
}

func sendMsgJSON(from, to sdk.AccAddress, denom string, amt int64) string {
	return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"%s","amount":"%d"}]}`, from, to, denom, amt)
}

// kinds of frames and endings of a call tree
const (
	fCall = iota
	fDelegate
	fCallcode
	fStatic
	fCreate
	fCreate2
)

var frameNames = []string{"call", "delegatecall", "callcode", "staticcall", "create", "create2"}

type tnode struct {
	id       int
	kind     int
	end      string // ok revert invalid loop
	catch    bool   // parent goes on when this node fails
	value    int
	items    []titem
	code     common.Address // code holder
	ctx      common.Address // whose state it runs on (zero: not known beforehand)
	known    bool
	size     int
	fails    bool
	executed []int // number of items executed before the end
	deadFrom int   // index of the first item that never runs
	wrote    bool
}

type titem struct {
	eff   string
	id    int
	child *tnode
}

type tree struct {
	root     *tnode
	nodes    []*tnode // predeployed
	n        int
	eff      int
	owner    common.Address
	nonce    uint64
	rng      *rand.Rand
	usdc     common.Address
	tokenOK  map[common.Address]bool
	stats    map[string]int
	msgOrder []int // ids of surviving cosmos messages in order
	failMsg  int
}

func rcpt(kind string, id int) common.Address {
	return common.BytesToAddress([]byte(fmt.Sprintf("rcpt-%s-%04d-------", kind, id)))
}

func (t *tree) build(kind, depth int, parent *tnode) *tnode {
	r := t.rng
	n := &tnode{id: t.n, kind: kind, catch: r.Intn(4) > 0}
	t.n++
	n.end = []string{"ok", "ok", "ok", "revert", "revert", "invalid", "loop"}[r.Intn(7)]
	if parent == nil && r.Intn(4) > 0 {
		n.end = "ok"
	}
	if (kind == fCreate || kind == fCreate2) && n.end != "ok" {
		n.end = "revert" // other endings would burn what the creator still needs
	}
	switch kind {
	case fCall, fStatic:
		n.code = createAddr(t.owner, t.nonce)
		t.nonce++
		n.ctx, n.known = n.code, true
		if kind == fCall && r.Intn(3) == 0 && parent != nil && parent.known {
			n.value = 1 + r.Intn(9)
		}
		t.nodes = append(t.nodes, n)
	case fDelegate, fCallcode:
		n.code = createAddr(t.owner, t.nonce)
		t.nonce++
		n.ctx, n.known = parent.ctx, parent.known
		t.nodes = append(t.nodes, n)
	}
	k := 1 + r.Intn(5)
	for i := 0; i < k; i++ {
		if depth < 4 && t.n < 14 && r.Intn(2) == 0 && kind != fCreate2 {
			ck := []int{fCall, fCall, fDelegate, fCallcode, fStatic, fCreate, fCreate, fCreate2}[r.Intn(8)]
			c := t.build(ck, depth+1, n)
			n.items = append(n.items, titem{child: c})
			continue
		}
		effs := []string{"sstore", "sstore", "tstore", "log", "register"}
		if n.known {
			effs = append(effs, "store", "erc20", "erc20", "approve", "msg", "msg", "value", "factory", "sclear")
		}
		if kind == fStatic {
			effs = []string{"read", "read", "sstore"}
		}
		e := effs[r.Intn(len(effs))]
		n.items = append(n.items, titem{eff: e, id: t.eff})
		t.eff++
	}
	return n
}

// analyse decides which frames fail and which messages survive.
func (t *tree) analyse(n *tnode, static bool) []int {
	var msgs []int
	n.size = 1
	static = static || n.kind == fStatic
	n.deadFrom = len(n.items)
	for i, it := range n.items {
		if it.child == nil {
			if static && it.eff != "read" {
				// precompiles reached through CALL are known to write from a static context (C01);
				// every tree keeps a plain write there so that the frame fails anyway
				n.fails = true
				n.deadFrom = i
				break
			}
			if it.eff == "msg" {
				msgs = append(msgs, it.id)
			}
			continue
		}
		m := t.analyse(it.child, static)
		n.size += it.child.size
		if static && (it.child.value > 0 || it.child.kind == fCreate || it.child.kind == fCreate2) {
			n.fails = true
			n.deadFrom = i
			break
		}
		if it.child.fails {
			if !it.child.catch {
				n.fails = true
				n.deadFrom = i + 1
				break
			}
		} else {
			msgs = append(msgs, m...)
		}
	}
	for _, it := range n.items {
		if it.child != nil && it.child.size == 0 {
			it.child.size = 1
		}
	}
	if n.end != "ok" {
		n.fails = true
	}
	if n.fails {
		return nil
	}
	return msgs
}

// mask of the topmost failing frames that execute
func (t *tree) failing(n *tnode, mask *big.Int) {
	for i, it := range n.items {
		if it.child == nil || i >= n.deadFrom {
			continue
		}
		if it.child.fails {
			mask.SetBit(mask, it.child.id, 1)
			continue
		}
		t.failing(it.child, mask)
	}
}

func (t *tree) gasOf(n *tnode) int { return 7_000_000 * n.size }

// emit writes the code of a frame. Memory word 0 holds the mask of children to skip.
func (t *tree) emit(n *tnode, root bool) []byte {
	a := verifkit.NewAsm()
	switch n.kind {
	case fCreate:
		// the mask is appended to the init code
		a.Push(32).Push(32).Op(vm.CODESIZE, vm.SUB).Push(0).Op(vm.CODECOPY)
	case fCreate2:
	default:
		a.Push(0).Op(vm.CALLDATALOAD).Push(0).Op(vm.MSTORE)
	}
	for _, it := range n.items {
		if it.child == nil {
			t.emitEffect(a, n, it)
			continue
		}
		c := it.child
		skip := fmt.Sprintf("skip%d", c.id)
		done := fmt.Sprintf("done%d", c.id)
		masked := n.kind != fCreate2
		if masked {
			a.Push(0).Op(vm.MLOAD).Push(c.id).Op(vm.SHR).Push(1).Op(vm.AND).PushLabel(skip).Op(vm.JUMPI)
		}
		switch c.kind {
		case fCreate, fCreate2:
			init := t.emit(c, false)
			a.MstoreBytes(0x400, init)
			sz := len(init)
			if c.kind == fCreate {
				a.Push(0).Op(vm.MLOAD).Push(0x400 + sz).Op(vm.MSTORE)
				sz += 32
				a.Push(sz).Push(0x400).Push(0).Op(vm.CREATE)
			} else {
				a.Push(c.id).Push(sz).Push(0x400).Push(0).Op(vm.CREATE2)
			}
		default:
			op := map[int]vm.OpCode{fCall: vm.CALL, fDelegate: vm.DELEGATECALL, fCallcode: vm.CALLCODE, fStatic: vm.STATICCALL}[c.kind]
			a.Call(op, c.code, c.value, 0, 32, t.gasOf(c))
		}
		if c.catch {
			a.Op(vm.POP)
		} else {
			a.Op(vm.ISZERO).PushLabel("fail").Op(vm.JUMPI)
		}
		if masked {
			a.PushLabel(done).Op(vm.JUMP).Label(skip)
			if c.kind == fCreate || c.kind == fCreate2 {
				// a failed creation still consumes a nonce
				a.MstoreBytes(0x400, []byte{byte(vm.PUSH0), byte(vm.PUSH0), byte(vm.REVERT)})
				if c.kind == fCreate {
					a.Push(3).Push(0x400).Push(0).Op(vm.CREATE, vm.POP)
				} else {
					a.Push(77+c.id).Push(3).Push(0x400).Push(0).Op(vm.CREATE2, vm.POP)
				}
			}
			a.Label(done)
		}
	}
	if root {
		for i := 0; i < t.eff; i++ {
			if i%3 == 0 {
				a.Push(i).Op(vm.TLOAD).Push(0x40).Op(vm.MSTORE).Log0(0x40, 32)
			}
		}
	}
	switch n.end {
	case "ok":
		if n.kind == fCreate || n.kind == fCreate2 {
			// deploy two bytes of code, sometimes destroy instead
			if n.id%5 == 4 {
				a.Push(rcpt("heir", n.id)).Op(vm.SELFDESTRUCT)
			} else {
				a.Push(0x6000).Push(0x40).Op(vm.MSTORE).ReturnMem(0x5e, 2)
			}
		} else {
			a.Op(vm.STOP)
		}
	case "revert":
		a.RevertMem(0, 0)
	case "invalid":
		a.Op(vm.INVALID)
	case "loop":
		a.Label("forever").PushLabel("forever").Op(vm.JUMP)
	}
	a.Label("fail").RevertMem(0, 0)
	return a.Bytes()
}

func (t *tree) emitEffect(a *verifkit.Asm, n *tnode, it titem) {
	id := it.id
	t.stats[it.eff]++
	callData := func(to common.Address, bz []byte, val int) {
		a.MstoreBytes(0x100, bz)
		a.Call(vm.CALL, to, val, 0x100, len(bz), nil).Op(vm.POP)
	}
	switch it.eff {
	case "sstore":
		a.Sstore(100+id, id+1)
	case "sclear": // clears what construction may have set and writes again
		a.Sstore(5, 0).Sstore(5, id+7)
	case "tstore":
		a.Tstore(id, id+1)
	case "log":
		a.Push(id + 1).Push(0).Push(0).Op(vm.LOG1)
	case "read":
		a.Push(1).Op(vm.SLOAD, vm.POP)
	case "register":
		callData(registryPrecompile, pack(registryABI, "register_erc20"), 0)
	case "store":
		callData(registryPrecompile, pack(registryABI, "register_erc20"), 0)
		callData(registryPrecompile, pack(registryABI, "register_erc20_store", rcpt("store", id)), 0)
	case "erc20":
		callData(t.usdc, pack(erc20ABI, "transfer", rcpt("erc20", id), big.NewInt(int64(id+1))), 0)
	case "approve":
		callData(t.usdc, pack(erc20ABI, "approve", rcpt("erc20", id), big.NewInt(int64(id+1))), 0)
	case "factory":
		fa, _ := base().App.EVMKeeper.GetERC20FactoryAddr(base().QCtx())
		callData(fa, pack(factoryABI, "createERC20", fmt.Sprintf("t%d", id), "T", uint8(3)), 0)
	case "value":
		callData(rcpt("value", id), nil, id+1)
	case "msg":
		amt := int64(id + 1)
		if id == t.failMsg {
			amt = 1 << 61
		}
		callData(cosmosPrecompile, pack(cosmosABI, "execute_cosmos", sendMsgJSON(n.ctx.Bytes(), rcpt("msg", id).Bytes(), "uusdc", amt)), 0)
	}
}

func (t *tree) String() string {
	var sb strings.Builder
	var w func(n *tnode, ind string)
	w = func(n *tnode, ind string) {
		fmt.Fprintf(&sb, "%s#%d %s end=%s catch=%v value=%d fails=%v\n", ind, n.id, frameNames[n.kind], n.end, n.catch, n.value, n.fails)
		for _, it := range n.items {
			if it.child != nil {
				w(it.child, ind+"  ")
			} else {
				fmt.Fprintf(&sb, "%s  %s %d\n", ind, it.eff, it.id)
			}
		}
	}
	w(t.root, "")
	return sb.String()
}

// newTree builds a call tree and deploys it into ctx (persisted there).
func newTree(rng *rand.Rand, c *verifkit.Chain, ctx sdk.Context, create bool) *tree {
	own := c.Accs[0]
	t := &tree{rng: rng, owner: own.Eth, nonce: nonceMap(c, ctx)[own.Eth], usdc: c.Contract("uusdc"), stats: map[string]int{}, failMsg: -1}
	k := fCall
	if create {
		// constructors at the top: the address is the next but one of acc1
		k = fCreate
	}
	t.root = t.build(k, 0, nil)
	t.msgOrder = t.analyse(t.root, false)
	return t
}

func (t *tree) deploy(c *verifkit.Chain, ctx sdk.Context) error {
	for _, n := range t.nodes {
		code := t.emit(n, n == t.root)
		_, addr, _, err := c.App.EVMKeeper.EVMCreate(ctx, t.owner, deployer5(code), nil, nil)
		if err != nil {
			return fmt.Errorf("deploy %d (%d bytes): %w", n.id, len(code), err)
		}
		if addr != n.code {
			return fmt.Errorf("node %d at %s, predicted %s", n.id, addr, n.code)
		}
		coins := sdk.NewCoins(verifkit.Coin("uusdc", 100_000), verifkit.Coin(verifkit.FeeDenom, 100_000))
		if err := c.App.BankKeeper.SendCoins(ctx, c.Accs[1].Acc, addr.Bytes(), coins); err != nil {
			return err
		}
	}
	return nil
}

// deployer5 sets storage slot 5 before returning the runtime.
func deployer5(rt []byte) []byte {
	pre := verifkit.NewAsm().Sstore(5, 9).Bytes()
	d := verifkit.Deployer(rt)
	// fix the offset of CODECOPY
	off := int(d[5])<<8 | int(d[6])
	off += len(pre)
	d[5], d[6] = byte(off>>8), byte(off)
	return append(pre, d...)
}
