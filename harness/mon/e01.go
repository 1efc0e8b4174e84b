package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/verifkit"
)

func init() {
	monitors["E01"] = monE01
}

func runTree(c *verifkit.Chain, ctx sdk.Context, t *tree, mask *big.Int) execOut {
	var m [32]byte
	mask.FillBytes(m[:])
	tx := evmTx{kind: 2, from: c.Accs[2].Eth, to: t.root.code, data: m[:], gas: uint64(40_000_000 + t.gasOf(t.root)*2)}
	if t.root.kind == fCreate {
		tx.kind = 0
		tx.data = append(t.emit(t.root, true), m[:]...)
	}
	return runEVM(c, ctx, tx, false, false, nil)
}

// visible drops the logs nobody distinguishes.
func logString(o *execOut) string {
	var sb strings.Builder
	for _, l := range o.logs {
		fmt.Fprintf(&sb, "%s %v %s\n", l.Address, l.Topics, l.Data)
	}
	return sb.String()
}

func monE01(r *R) {
	r.Rule = "a distinct case is the shape of a call tree (frame kinds, endings, caught or not, effects); an evaluation compares the full persisted state and logs of the execution with those of the same execution without its failing frames, or with the state before if it fails at the top"
	c := base()
	r.ParCase("tree", r.N(500, 8000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		t := newTree(rng, c, ctx, rng.Intn(5) == 0)
		if err := t.deploy(c, ctx); err != nil {
			if strings.Contains(err.Error(), "max code size") || strings.Contains(err.Error(), "max initcode size") {
				r.Count("trees_too_large", 1)
				return
			}
			r.Violate(id, "deploy", "%v\n%s", err, t)
			return
		}
		var before verifkit.Dump
		mask := new(big.Int)
		t.failing(t.root, mask)
		nfail := 0
		for i := 0; i < mask.BitLen(); i++ {
			nfail += int(mask.Bit(i))
		}
		r.Distinct(t.shape())
		r.Count("frames", t.n)
		r.Count("failing_subtrees", nfail)
		for k, v := range t.stats {
			r.Count("effect_"+k, v)
		}
		if t.root.fails {
			// straight on the context, so that nothing but the keeper itself undoes it
			before = c.DumpCtx(ctx)
			o := runTreeDirect(c, ctx, t)
			if o.err == nil {
				r.Violate(id, "top-level-success", "execution should have failed\n%s", t)
				return
			}
			d := verifkit.Diff(before, c.DumpCtx(ctx))
			if t.root.kind == fCreate && len(d) == 1 && d[0].Store == "acc" && strings.Contains(d[0].Key, string(c.Accs[2].Acc)) {
				// a failed creation consumes its creator's nonce, as in Ethereum
				d = nil
			}
			if len(d) > 0 {
				r.Violate(id, "top-level-trace", "failed execution (%v) left\n%s\n%s", o.err, verifkit.DiffString(d, 10), t)
			}
			r.Eval(1)
			r.Count("failed_at_top", 1)
			r.Sample("%s fails at the top with %d effects: %v", id, t.eff, o.err)
			return
		}
		a := runTree(c, ctx, t, new(big.Int))
		b := runTree(c, ctx, t, mask)
		if a.err != nil || b.err != nil {
			r.Violate(id, "outcome", "with failing frames: %v, without: %v\n%s", a.err, b.err, t)
			return
		}
		r.Eval(1)
		r.Count("logs", len(a.logs))
		if x, y := logString(&a), logString(&b); x != y {
			r.Violate(id, "logs", "logs\n%s\nwithout failing frames\n%s\n%s", x, y, t)
		}
		da, db := c.DumpCtx(a.ctx), c.DumpCtx(b.ctx)
		if d := verifkit.Diff(db, da); len(d) > 0 {
			r.Violate(id, "state", "failing frames left (without -> with them)\n%s\n%s", verifkit.DiffString(d, 10), t)
		}
		if nfail > 0 {
			r.Sample("%s: %d frames, %d failing subtrees, %d logs", id, t.n, nfail, len(a.logs))
		} else {
			r.Count("trees_without_failure", 1)
		}
		e01Model(r, c, id, t, &a)
	})
}

// e01Model checks the surviving effects against the tree itself.
func e01Model(r *R, c *verifkit.Chain, id string, t *tree, o *execOut) {
	ctx := unlimited(o.ctx)
	_, evm, err := c.App.EVMKeeper.CreateEVM(ctx, common.Address{}, nil)
	must(err)
	type key struct {
		a common.Address
		s int
	}
	alive := map[int]bool{}
	var walk func(n *tnode, live bool)
	walk = func(n *tnode, live bool) {
		live = live && !n.fails
		for i, it := range n.items {
			if it.child != nil {
				walk(it.child, live && i < n.deadFrom)
				continue
			}
			alive[it.id] = live
			if !n.known {
				continue
			}
			usdc := func(to common.Address) int64 {
				return c.App.BankKeeper.GetBalance(ctx, to.Bytes(), "uusdc").Amount.Int64()
			}
			want := int64(0)
			if live {
				want = int64(it.id + 1)
			}
			var got int64
			switch it.eff {
			case "sstore":
				got = evm.StateDB.GetState(n.ctx, common.BigToHash(big.NewInt(int64(100+it.id)))).Big().Int64()
			case "erc20":
				got = usdc(rcpt("erc20", it.id))
			case "msg":
				got = usdc(rcpt("msg", it.id))
			case "value":
				got = c.App.BankKeeper.GetBalance(ctx, rcpt("value", it.id).Bytes(), verifkit.FeeDenom).Amount.Int64()
			case "store":
				ok, err := c.App.EVMKeeper.ERC20StoresKeeper().IsStoreRegistered(ctx, rcpt("store", it.id).Bytes(), n.ctx)
				must(err)
				if ok {
					got = int64(it.id + 1)
				}
			default:
				continue
			}
			if got != want {
				r.Violate(id, "effect-"+it.eff, "effect %s %d: observed %d, want %d\n%s", it.eff, it.id, got, want, t)
			}
			r.Count("effects_checked", 1)
		}
	}
	walk(t.root, true)
}

func runTreeDirect(c *verifkit.Chain, ctx sdk.Context, t *tree) (o execOut) {
	defer func() {
		if p := recover(); p != nil {
			o.err = fmt.Errorf("panic: %v", p)
		}
	}()
	k := c.App.EVMKeeper
	if t.root.kind == fCreate {
		o.ret, o.addr, o.logs, o.err = k.EVMCreate(limited(ctx, uint64(100_000_000+t.gasOf(t.root)*2)), c.Accs[2].Eth, append(t.emit(t.root, true), make([]byte, 32)...), nil, nil)
		return
	}
	o.ret, o.logs, o.err = k.EVMCall(limited(ctx, uint64(100_000_000+t.gasOf(t.root)*2)), c.Accs[2].Eth, t.root.code, make([]byte, 32), nil, nil)
	return
}

func (t *tree) shape() string {
	var sb strings.Builder
	var w func(n *tnode)
	w = func(n *tnode) {
		fmt.Fprintf(&sb, "(%d%s%v", n.kind, n.end[:1], n.catch)
		for _, it := range n.items {
			if it.child != nil {
				w(it.child)
			} else {
				sb.WriteString(it.eff[:2])
			}
		}
		sb.WriteString(")")
	}
	w(t.root)
	return sb.String()
}
