package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Ledger is the independent model of who owns how much of what.
type lkey struct {
	denom string
	a     common.Address
}
type akey struct {
	denom    string
	owner, s common.Address
}

type Ledger struct {
	bal     map[lkey]*big.Int
	sup     map[string]*big.Int
	allow   map[akey]*big.Int
	owner   map[string]common.Address // erc20 owner
	blocked map[common.Address]bool
	module  map[common.Address]bool
	erc20   map[common.Address]string // token contract -> denom
	addrs   map[common.Address]bool   // everyone who ever held something
	burnAny int
}

func NewLedger() *Ledger {
	return &Ledger{bal: map[lkey]*big.Int{}, sup: map[string]*big.Int{}, allow: map[akey]*big.Int{}, owner: map[string]common.Address{},
		blocked: map[common.Address]bool{}, module: map[common.Address]bool{}, erc20: map[common.Address]string{}, addrs: map[common.Address]bool{}}
}

func cp[K comparable](m map[K]*big.Int) map[K]*big.Int {
	o := make(map[K]*big.Int, len(m))
	for k, v := range m {
		o[k] = v // values are never mutated in place
	}
	return o
}

type lsnap struct {
	bal   map[lkey]*big.Int
	sup   map[string]*big.Int
	allow map[akey]*big.Int
	owner map[string]common.Address
}

func (l *Ledger) Snap() lsnap {
	ow := map[string]common.Address{}
	for k, v := range l.owner {
		ow[k] = v
	}
	return lsnap{cp(l.bal), cp(l.sup), cp(l.allow), ow}
}

func (l *Ledger) Restore(s lsnap) { l.bal, l.sup, l.allow, l.owner = s.bal, s.sup, s.allow, s.owner }

func (l *Ledger) Bal(d string, a common.Address) *big.Int {
	if v, ok := l.bal[lkey{d, a}]; ok {
		return v
	}
	return new(big.Int)
}

func (l *Ledger) Sup(d string) *big.Int {
	if v, ok := l.sup[d]; ok {
		return v
	}
	return new(big.Int)
}

func (l *Ledger) add(d string, a common.Address, v *big.Int) {
	l.addrs[a] = true
	l.bal[lkey{d, a}] = new(big.Int).Add(l.Bal(d, a), v)
}

// move without any permission rule
func (l *Ledger) move(d string, from, to common.Address, v *big.Int) bool {
	if l.Bal(d, from).Cmp(v) < 0 {
		return false
	}
	l.add(d, from, new(big.Int).Neg(v))
	l.add(d, to, v)
	return true
}

func (l *Ledger) mint(d string, to common.Address, v *big.Int) {
	l.add(d, to, v)
	l.sup[d] = new(big.Int).Add(l.Sup(d), v)
}

func (l *Ledger) burn(d string, from common.Address, v *big.Int) bool {
	if l.Bal(d, from).Cmp(v) < 0 {
		return false
	}
	l.add(d, from, new(big.Int).Neg(v))
	l.sup[d] = new(big.Int).Sub(l.Sup(d), v)
	return true
}

func (l *Ledger) useAllowance(d string, owner, sp common.Address, v *big.Int) bool {
	k := akey{d, owner, sp}
	a, ok := l.allow[k]
	if !ok {
		a = new(big.Int)
	}
	if a.Cmp(v) < 0 {
		return false
	}
	l.allow[k] = new(big.Int).Sub(a, v)
	return true
}

// ownerOf a token; the chain owns the tokens it made.
func (l *Ledger) ownerOf(d string) common.Address {
	if o, ok := l.owner[d]; ok {
		return o
	}
	return evmtypes.StdAddress
}

// tokenCall predicts a call of an ERC20 method.
func (l *Ledger) tokenCall(d, method string, self common.Address, a []any) bool {
	ad := func(i int) common.Address { return a[i].(common.Address) }
	am := func(i int) *big.Int { return a[i].(*big.Int) }
	s := l.Snap()
	ok := func() bool {
		switch method {
		case "transfer":
			return !l.blocked[ad(0)] && l.move(d, self, ad(0), am(1))
		case "approve":
			l.allow[akey{d, self, ad(0)}] = am(1)
			return true
		case "transferFrom":
			return !l.blocked[ad(1)] && l.useAllowance(d, ad(0), self, am(2)) && l.move(d, ad(0), ad(1), am(2))
		case "mint":
			if l.blocked[ad(0)] || l.ownerOf(d) != self {
				return false
			}
			if new(big.Int).Add(l.Sup(d), am(1)).BitLen() > 256 {
				return false
			}
			l.mint(d, ad(0), am(1))
			return true
		case "burn":
			return !l.module[self] && l.burn(d, self, am(0))
		case "burnFrom":
			return !l.module[ad(0)] && l.useAllowance(d, ad(0), self, am(1)) && l.burn(d, ad(0), am(1))
		case "transferOwnership":
			if l.ownerOf(d) != self || ad(0) == (common.Address{}) {
				return false
			}
			l.owner[d] = ad(0)
			return true
		case "sudoTransfer", "sudoMint", "sudoBurn":
			return false // self is never the chain
		}
		panic("method " + method)
	}()
	if !ok {
		l.Restore(s)
	}
	return ok
}

func (l *Ledger) denoms() []string {
	var out []string
	for d := range l.sup {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}

func (l *Ledger) holders() []common.Address {
	var out []common.Address
	for a := range l.addrs {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

func (l *Ledger) String() string { return fmt.Sprint(len(l.bal)) }
