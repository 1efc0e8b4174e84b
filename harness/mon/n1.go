package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	nfttransfertypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/initia-labs/minievm/verifkit"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func init() { monitors["N01"] = monN01 }

var erc721ABI = mustABI(ics721_erc721.Ics721Erc721MetaData.GetAbi())

// ERC721 methods with overloads by arity
var (
	safeTransfer3 = "safeTransferFrom"
	safeTransfer4 = "safeTransferFrom0"
)

type nftTok struct {
	owner, approved common.Address
	uri, origin     string
}

type nftClass struct {
	id    string
	uri   string
	addr  common.Address
	admin common.Address
	name  string
	toks  map[string]*nftTok // by number
	ids   map[string]string  // a written id of the number
	ops   map[[2]common.Address]bool
}

func (c *nftClass) clone() *nftClass {
	d := *c
	d.toks = map[string]*nftTok{}
	for k, v := range c.toks {
		t := *v
		d.toks[k] = &t
	}
	d.ops = cpm(c.ops)
	return &d
}

// number of a token id; false when it names none.
func (c *nftClass) number(id string) (*big.Int, bool) {
	if strings.HasPrefix(c.id, "ibc/") {
		h := sha256.Sum256([]byte(id))
		return new(big.Int).SetBytes(h[:]), true
	}
	if id == "" {
		return nil, false
	}
	for i, ch := range id {
		if (ch < '0' || ch > '9') && !(i == 0 && ch == '+' && len(id) > 1) {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(id, 10)
	if !ok || n.BitLen() > 256 {
		return nil, false
	}
	return n, true
}

func (c *nftClass) authorized(who common.Address, t *nftTok) bool {
	return t.owner == who || c.ops[[2]common.Address{t.owner, who}] || t.approved == who
}

type nftWorld struct {
	rng     *rand.Rand
	classes []*nftClass
	recv    map[common.Address]string // receiver contracts
	target  common.Address            // forwarders send there
	actors  []common.Address
	accs    map[common.Address]sdk.AccAddress
}

// arrive is what a safe transfer does when the token has been moved to `to`.
func (w *nftWorld) arrive(c *nftClass, to common.Address, n string) bool {
	switch w.recv[to] {
	case "", "accept":
		return true
	case "forward":
		c.toks[n].owner, c.toks[n].approved = w.target, common.Address{}
		return true
	case "burn":
		delete(c.toks, n)
		return true
	}
	return false
}

func (w *nftWorld) mint(c *nftClass, by, to common.Address, n *big.Int, uri, origin string) bool {
	k := n.String()
	if by != c.admin || to == (common.Address{}) || c.toks[k] != nil {
		return false
	}
	c.toks[k] = &nftTok{owner: to}
	if !w.arrive(c, to, k) {
		return false
	}
	if t := c.toks[k]; t != nil {
		t.uri, t.origin = uri, origin
	}
	return true
}

func (w *nftWorld) transfer(c *nftClass, by, from, to common.Address, n *big.Int, safe bool) bool {
	k := n.String()
	t := c.toks[k]
	if t == nil || to == (common.Address{}) || !c.authorized(by, t) || t.owner != from {
		return false
	}
	t.owner, t.approved = to, common.Address{}
	return !safe || w.arrive(c, to, k)
}

func (w *nftWorld) burn(c *nftClass, by common.Address, n *big.Int) bool {
	t := c.toks[n.String()]
	if t == nil || !c.authorized(by, t) {
		return false
	}
	delete(c.toks, n.String())
	return true
}

// receiverCode answers onERC721Received.
func receiverCode(kind string, target common.Address) []byte {
	a := verifkit.NewAsm()
	magic := new(big.Int).Lsh(big.NewInt(0x150b7a02), 224)
	switch kind {
	case "reject":
		return a.RevertMem(0, 0).Bytes()
	case "invalid":
		return a.Op(vm.INVALID).Bytes()
	case "wrong":
		return a.Push(1).Push(0).Op(vm.MSTORE).ReturnMem(0, 32).Bytes()
	case "silent":
		return a.Op(vm.STOP).Bytes()
	case "forward":
		// transferFrom(this, target, tokenId)
		a.Push(new(big.Int).Lsh(big.NewInt(0x23b872dd), 224)).Push(0).Op(vm.MSTORE)
		a.Op(vm.ADDRESS).Push(4).Op(vm.MSTORE)
		a.Push(target).Push(36).Op(vm.MSTORE)
		a.Push(68).Op(vm.CALLDATALOAD).Push(68).Op(vm.MSTORE)
		a.Push(0).Push(0).Push(100).Push(0).Push(0).Op(vm.CALLER, vm.GAS, vm.CALL, vm.POP)
	case "burn":
		a.Push(new(big.Int).Lsh(big.NewInt(0x42966c68), 224)).Push(0).Op(vm.MSTORE)
		a.Push(68).Op(vm.CALLDATALOAD).Push(4).Op(vm.MSTORE)
		a.Push(0).Push(0).Push(36).Push(0).Push(0).Op(vm.CALLER, vm.GAS, vm.CALL, vm.POP)
	}
	return a.Push(magic).Push(0).Op(vm.MSTORE).ReturnMem(0, 32).Bytes()
}

func (w *nftWorld) tokenID(c *nftClass, fresh bool) string {
	rng := w.rng
	if rng.Intn(8) > 0 && fresh {
		return fmt.Sprint(rng.Intn(40))
	}
	if rng.Intn(8) > 0 && len(c.toks) > 0 { // a live one
		var l []string
		for k := range c.toks {
			if c.ids[k] != "" {
				l = append(l, k)
			}
		}
		sort.Strings(l)
		if len(l) > 0 {
			return c.ids[l[rng.Intn(len(l))]]
		}
	}
	if rng.Intn(3) > 0 && len(c.ids) > 0 { // a known one
		var l []string
		for k := range c.ids {
			l = append(l, k)
		}
		sort.Strings(l)
		return c.ids[l[rng.Intn(len(l))]]
	}
	if strings.HasPrefix(c.id, "ibc/") {
		return []string{"", "1", "01", "token", "Token", "é漢字", strings.Repeat("x", 300), "-5", "0x10", fmt.Sprint(rng.Intn(50)), "1 "}[rng.Intn(11)]
	}
	max := new(big.Int).Lsh(big.NewInt(1), 256)
	switch rng.Intn(12) {
	case 0:
		return []string{"", "abc", "-1", "-0x1", "0x10", "1.5", " 1", "1 ", "1_000", "--1"}[rng.Intn(10)]
	case 1:
		return max.String()
	case 2:
		return new(big.Int).Add(max, big.NewInt(int64(rng.Intn(10)))).String()
	case 3:
		return new(big.Int).Sub(max, big.NewInt(int64(1+rng.Intn(3)))).String()
	case 4:
		return new(big.Int).Neg(new(big.Int).Sub(max, big.NewInt(int64(rng.Intn(10))))).String()
	case 5:
		return "00" + fmt.Sprint(rng.Intn(10))
	case 6:
		return new(big.Int).Rand(rng, max).String()
	}
	return fmt.Sprint(rng.Intn(12))
}

func monN01(r *R) {
	r.Rule = "distinct = (operation, kind of class, kinds of sender and receiver, length of the list, outcome)"
	c := base()
	k := c.App.EVMKeeper
	r.ParCase("history", r.N(150, 8000), func(id string, rng *rand.Rand) {
		ctx := c.Scratch(0)
		nk := k.ERC721Keeper().(nfttransfertypes.NftKeeper)
		w := &nftWorld{rng: rng, recv: map[common.Address]string{}, target: common.BytesToAddress(crypto20("nft-target", 0)), accs: map[common.Address]sdk.AccAddress{}}
		for _, a := range c.Accs[:3] {
			w.actors = append(w.actors, a.Eth)
			w.accs[a.Eth] = a.Acc
		}
		long := verifkit.NewLongAccount(id)
		w.actors = append(w.actors, long.Eth)
		w.accs[long.Eth] = long.Acc
		// it must be known to send
		must(c.App.BankKeeper.SendCoins(ctx, c.Accs[0].Acc, long.Acc, sdk.NewCoins(verifkit.Coin("uusdc", 10))))
		for _, kind := range []string{"accept", "reject", "invalid", "wrong", "silent", "forward", "burn"} {
			_, a, _, err := k.EVMCreate(ctx, c.Accs[0].Eth, verifkit.Deployer(receiverCode(kind, w.target)), nil, nil)
			must(err)
			w.recv[a] = kind
			w.actors = append(w.actors, a)
			w.accs[a] = a.Bytes()
		}
		w.actors = append(w.actors, w.target)
		w.accs[w.target] = w.target.Bytes()
		kindOf := func(a common.Address) string {
			switch {
			case a == long.Eth:
				return "long"
			case a == common.Address{}:
				return "zero"
			case w.recv[a] != "":
				return w.recv[a]
			}
			return "account"
		}
		some := func() common.Address {
			if rng.Intn(25) == 0 {
				return common.Address{}
			}
			if rng.Intn(4) > 0 {
				return w.actors[rng.Intn(5)]
			}
			return w.actors[rng.Intn(len(w.actors))]
		}
		accOf := func(a common.Address) sdk.AccAddress {
			if x, ok := w.accs[a]; ok {
				return x
			}
			return a.Bytes()
		}
		var trace []string
		n := 30
		for step := 0; step < n; step++ {
			// on a branch of model and chain
			var cls *nftClass
			was := map[int]*nftClass{}
			if len(w.classes) > 0 {
				i := rng.Intn(len(w.classes))
				cls = w.classes[i]
				was[i] = cls.clone()
			}
			op := rng.Intn(14)
			if (op == 0 || op == 13) && len(w.classes) > 1 && rng.Intn(3) > 0 {
				op = 1 + rng.Intn(12)
			}
			if cls == nil {
				op = []int{0, 13}[rng.Intn(2)]
			}
			var what string
			var ok bool
			var wantEvents []string
			var err error
			ev := sdk.NewEventManager()
			run := func(f func(ctx sdk.Context) error) {
				err = attempt(ctx.WithEventManager(ev), f)
			}
			call := func(by common.Address, m string, args ...any) {
				run(func(ctx sdk.Context) error {
					_, _, err := k.EVMCall(ctx, by, cls.addr, pack(erc721ABI, m, args...), nil, nil)
					return err
				})
			}
			ck := func() string {
				if cls == nil {
					return ""
				}
				return strings.SplitN(cls.id+"/", "/", 2)[0]
			}
			ids := func(fresh bool) (l []string, ns []*big.Int, all bool) {
				all = true
				for i := rng.Intn(1 + rng.Intn(4)); i >= 0; i-- {
					s := w.tokenID(cls, fresh)
					n, ok := cls.number(s)
					all = all && ok
					l, ns = append(l, s), append(ns, n)
				}
				return
			}
			owner := func(ns []*big.Int) common.Address { // of the first token, mostly
				if len(ns) > 0 && ns[0] != nil && rng.Intn(4) > 0 {
					if t := cls.toks[ns[0].String()]; t != nil {
						return t.owner
					}
				}
				return some()
			}
			switch op {
			case 0: // a class
				cid := []string{"ibc/" + hex.EncodeToString(crypto20("c", rng.Intn(4))), "nft-" + fmt.Sprint(rng.Intn(3)), "Col Lection " + fmt.Sprint(rng.Intn(3)), "cosmos1abc"}[rng.Intn(4)]
				uri := []string{"", "https://x/" + fmt.Sprint(rng.Intn(9)), strings.Repeat("u", 100)}[rng.Intn(3)]
				ok = true
				what = "class " + cid
				run(func(ctx sdk.Context) error { return nk.CreateOrUpdateClass(ctx, cid, uri, "data") })
				var known *nftClass
				for _, x := range w.classes {
					if x.id == cid {
						known = x
					}
				}
				if known == nil && err == nil {
					a, e := k.ERC721ContractAddrsByClassId.Get(ctx, cid)
					must(e)
					known = &nftClass{id: cid, addr: common.BytesToAddress(a), admin: evmtypes.StdAddress, name: cid, toks: map[string]*nftTok{}, ids: map[string]string{}, ops: map[[2]common.Address]bool{}}
					for _, x := range w.classes {
						if x.addr == known.addr {
							r.Violate(id, "class", "classes %s and %s have the same contract", x.id, cid)
						}
					}
					w.classes = append(w.classes, known)
					wantEvents = append(wantEvents, "erc721_created "+cid+" "+known.addr.Hex())
				}
				if err == nil {
					known.uri = uri
				}
				cls = nil
			case 13: // somebody's own collection
				by := w.actors[rng.Intn(3)]
				ok, what = true, "collection of "+by.Hex()
				nm := fmt.Sprint("own", step)
				ctor, e := erc721ABI.Pack("", nm, "S")
				must(e)
				run(func(ctx sdk.Context) error {
					_, a, _, err := k.EVMCreate(ctx, by, append(common.FromHex(ics721_erc721.Ics721Erc721Bin), ctor...), nil, nil)
					if err == nil {
						w.classes = append(w.classes, &nftClass{id: "evm/" + a.Hex()[2:], addr: a, admin: by, name: nm, toks: map[string]*nftTok{}, ids: map[string]string{}, ops: map[[2]common.Address]bool{}})
					}
					return err
				})
				cls = nil
			case 1, 2, 3: // mint through the interface
				l, ns, all := ids(true)
				to := some()
				uris := make([]string, len(l))
				for i := range uris {
					uris[i] = fmt.Sprintf("uri-%d-%d", step, i)
				}
				ok = all
				for i, n := range ns {
					if !ok {
						break
					}
					ok = w.mint(cls, evmtypes.StdAddress, to, n, uris[i], l[i])
					wantEvents = append(wantEvents, fmt.Sprintf("erc721_minted %s %s %s", cls.addr.Hex(), n, l[i]))
					cls.ids[n.String()] = l[i]
				}
				what = fmt.Sprintf("mints %s to %s %v", ck(), kindOf(to), len(l))
				run(func(ctx sdk.Context) error {
					return nk.Mints(ctx, accOf(to), cls.id, l, uris, make([]string, len(l)))
				})
			case 4, 5, 6: // transfer through the interface
				l, ns, all := ids(false)
				from, to := owner(ns), some()
				if from == (common.Address{}) {
					from = w.actors[0]
				}
				ok = all
				for _, n := range ns {
					ok = ok && w.transfer(cls, from, from, to, n, true)
				}
				what = fmt.Sprintf("transfers %s %s to %s %d", ck(), kindOf(from), kindOf(to), len(l))
				run(func(ctx sdk.Context) error { return nk.Transfers(ctx, accOf(from), accOf(to), cls.id, l) })
			case 7: // burn through the interface
				l, ns, all := ids(false)
				by := owner(ns)
				if by == (common.Address{}) {
					by = w.actors[0]
				}
				ok = all
				for _, n := range ns {
					ok = ok && w.burn(cls, by, n)
					if ok {
						wantEvents = append(wantEvents, fmt.Sprintf("erc721_burned %s %s", cls.addr.Hex(), n))
					}
				}
				what = fmt.Sprintf("burns %s %s %d", ck(), kindOf(by), len(l))
				run(func(ctx sdk.Context) error { return nk.Burns(ctx, accOf(by), cls.id, l) })
			default: // the contract's own operations
				_, ns, _ := ids(rng.Intn(4) == 0)
				var n *big.Int
				for _, x := range ns {
					if x != nil {
						n = x
					}
				}
				if n == nil {
					n = new(big.Int)
				}
				by, from, to := owner([]*big.Int{n}), owner([]*big.Int{n}), some()
				if by == (common.Address{}) {
					by = w.actors[1]
				}
				switch op {
				case 8:
					ok = w.transfer(cls, by, from, to, n, false)
					what = "transferFrom"
					call(by, what, from, to, n)
				case 9:
					ok = w.transfer(cls, by, from, to, n, true)
					if rng.Intn(2) == 0 {
						what = safeTransfer3
						call(by, what, from, to, n)
					} else {
						what = safeTransfer4
						call(by, what, from, to, n, []byte("data"))
					}
				case 10:
					t := cls.toks[n.String()]
					ok = t != nil && (t.owner == by || cls.ops[[2]common.Address{t.owner, by}])
					if ok {
						t.approved = to
					}
					what = "approve"
					call(by, what, to, n)
				case 11:
					yes := rng.Intn(3) > 0
					ok = to != common.Address{}
					if ok {
						cls.ops[[2]common.Address{by, to}] = yes
					}
					what = "setApprovalForAll"
					call(by, what, to, yes)
				case 12:
					switch rng.Intn(4) {
					case 0:
						ok = w.burn(cls, by, n)
						what = "burn"
						call(by, what, n)
					case 1, 2:
						if rng.Intn(2) == 0 {
							by = cls.admin
							if by == evmtypes.StdAddress {
								by = w.actors[0]
							}
						}
						org := ""
						what = "mint"
						args := []any{to, n, fmt.Sprint("direct", step)}
						for _, m := range erc721ABI.Methods {
							if m.RawName == "mint" && len(m.Inputs) == 3+rng.Intn(1) {
								what = m.Name
							}
						}
						if rng.Intn(2) == 0 {
							org = fmt.Sprint("org", step)
							args = append(args, org)
							for _, m := range erc721ABI.Methods {
								if m.RawName == "mint" && len(m.Inputs) == 4 {
									what = m.Name
								}
							}
						}
						ok = w.mint(cls, by, to, n, args[2].(string), org)
						if cls.ids[n.String()] == "" && !strings.HasPrefix(cls.id, "ibc/") {
							cls.ids[n.String()] = n.String()
						}
						call(by, what, args...)
					case 3:
						ok = by == cls.admin && to != common.Address{}
						if ok {
							cls.admin = to
						}
						what = "transferOwnership"
						call(by, what, to)
					}
				}
				what += fmt.Sprintf(" %s %s %s to %s", ck(), kindOf(by), kindOf(from), kindOf(to))
			}
			trace = append(trace, fmt.Sprintf("%s ok=%v err=%v", what, ok, err))
			if !ok {
				for i, s := range was {
					w.classes[i] = s
				}
				wantEvents = nil
			}
			r.Eval(1)
			r.Count(fmt.Sprintf("op_%s_%v", strings.SplitN(what, " ", 2)[0], ok), 1)
			r.Distinct(fmt.Sprintf("%s|%v", what, ok))
			r.Sample("%s step %d: %s: %v", id, step, what, err)
			if (err == nil) != ok {
				r.Violate(id, "outcome-"+strings.SplitN(what, " ", 2)[0], "step %d: %s: got %v, want success %v\n%s", step, what, err, ok, strings.Join(trace, "\n"))
				return
			}
			if err == nil {
				got := nftEvents(ev.Events())
				if fmt.Sprint(got) != fmt.Sprint(wantEvents) && (op <= 3 || op == 7) {
					r.Violate(id, "events", "step %d: %s emits %v, want %v", step, what, got, wantEvents)
				}
			}
			if !w.compare(r, id, c, ctx, nk, trace) {
				return
			}
		}
		r.Count("histories", 1)
	})
}

func nftEvents(evs sdk.Events) (out []string) {
	for _, e := range evs {
		if !strings.HasPrefix(e.Type, "erc721_") {
			continue
		}
		m := map[string]string{}
		for _, a := range e.Attributes {
			m[a.Key] = a.Value
		}
		s := e.Type
		switch e.Type {
		case evmtypes.EventTypeERC721Created:
			s += " " + m[evmtypes.AttributeKeyClassId] + " " + m[evmtypes.AttributeKeyContract]
		case evmtypes.EventTypeERC721Minted:
			s += " " + m[evmtypes.AttributeKeyContract] + " " + m[evmtypes.AttributeKeyTokenId] + " " + m[evmtypes.AttributeKeyTokenOriginId]
		case evmtypes.EventTypeERC721Burned:
			s += " " + m[evmtypes.AttributeKeyContract] + " " + m[evmtypes.AttributeKeyTokenId]
		}
		out = append(out, s)
	}
	return
}

// compare holds every class and token against the model.
func (w *nftWorld) compare(r *R, id string, c *verifkit.Chain, ctx sdk.Context, nk nfttransfertypes.NftKeeper, trace []string) bool {
	k := c.App.EVMKeeper
	ctx, _ = ctx.CacheContext()
	bad := func(sig, f string, a ...any) bool {
		r.Violate(id, sig, f+"\n"+strings.Join(trace, "\n"), a...)
		return false
	}
	ek := k.ERC721Keeper().(interface {
		OwnerOf(ctx context.Context, tokenId string, classId string) (common.Address, error)
		BalanceOf(ctx context.Context, addr sdk.AccAddress, classId string) (math.Int, error)
	})
	for _, cls := range w.classes {
		if !strings.HasPrefix(cls.id, "evm/") {
			a, err := k.GetContractAddrByClassId(ctx, cls.id)
			if err != nil || a != cls.addr {
				return bad("class", "class %s has contract %s (%v), want %s", cls.id, a, err, cls.addr)
			}
			s, err := k.GetClassIdByContractAddr(ctx, cls.addr)
			if err != nil || s != cls.id {
				return bad("class", "contract %s has class %q (%v), want %s", cls.addr, s, err, cls.id)
			}
		}
		s, err := evmtypes.ClassIdFromCollectionAddress(ctx, k, cls.addr)
		if err != nil || s != cls.id {
			return bad("class", "collection %s is class %q (%v), want %s", cls.addr, s, err, cls.id)
		}
		name, uri, _, err := nk.GetClassInfo(ctx, cls.id)
		if err != nil || name != cls.name || uri != cls.uri {
			return bad("class", "class %s is told as %q %q (%v), want %q %q", cls.id, name, uri, err, cls.name, cls.uri)
		}
		if o := view(ctx, c, cls.addr, erc721ABI, "owner"); len(o) != 1 || o[0].(common.Address) != cls.admin {
			return bad("admin", "class %s is administered by %v, want %s", cls.id, o, cls.admin)
		}
		counts := map[common.Address]int64{}
		var live []string
		var uris []string
		for n, s := range cls.ids {
			num, _ := new(big.Int).SetString(n, 10)
			t := cls.toks[n]
			o, err := ek.OwnerOf(ctx, s, cls.id)
			out := view(ctx, c, cls.addr, erc721ABI, "ownerOf", num)
			r.Eval(2)
			if t == nil {
				if err == nil || out != nil {
					return bad("ghost", "token %q (%s) of %s is owned by %s %v, want nobody", s, n, cls.id, o, out)
				}
				continue
			}
			if err != nil || o != t.owner || len(out) != 1 || out[0].(common.Address) != t.owner {
				return bad("owner", "token %q (%s) of %s is owned by %s %v %v, want %s", s, n, cls.id, o, out, err, t.owner)
			}
			if ap := view(ctx, c, cls.addr, erc721ABI, "getApproved", num); len(ap) != 1 || ap[0].(common.Address) != t.approved {
				return bad("approved", "token %q of %s is approved for %v, want %s", s, cls.id, ap, t.approved)
			}
			if u := view(ctx, c, cls.addr, erc721ABI, "tokenURI", num); len(u) != 1 || u[0].(string) != t.uri {
				return bad("uri", "token %q of %s has uri %v, want %q", s, cls.id, u, t.uri)
			}
			if u := view(ctx, c, cls.addr, erc721ABI, "tokenOriginId", num); len(u) != 1 || u[0].(string) != t.origin {
				return bad("origin", "token %q of %s has origin id %v, want %q", s, cls.id, u, t.origin)
			}
			live, uris = append(live, s), append(uris, t.uri)
		}
		for n, t := range cls.toks {
			counts[t.owner]++
			if cls.ids[n] == "" && !strings.HasPrefix(cls.id, "ibc/") {
				panic("harness: token without an id")
			}
		}
		got, descs, err := nk.GetTokenInfos(ctx, cls.id, live)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(uris) || len(descs) != len(live) {
			return bad("infos", "tokens %q of %s are told as %q (%v), want %q", live, cls.id, got, err, uris)
		}
		for _, a := range w.actors {
			b, err := ek.BalanceOf(ctx, w.accs[a], cls.id)
			out := view(ctx, c, cls.addr, erc721ABI, "balanceOf", a)
			r.Eval(1)
			if err != nil || b.Int64() != counts[a] || len(out) != 1 || out[0].(*big.Int).Int64() != counts[a] {
				return bad("count", "%s (%s) has %s %v tokens (%v) of %s, want %d", a, w.recv[a], b, out, err, cls.id, counts[a])
			}
		}
		for p, yes := range cls.ops {
			if o := view(ctx, c, cls.addr, erc721ABI, "isApprovedForAll", p[0], p[1]); len(o) != 1 || o[0].(bool) != yes {
				return bad("operator", "operator %s of %s in %s: %v, want %v", p[1], p[0], cls.id, o, yes)
			}
		}
	}
	return true
}
