package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"cosmossdk.io/store/dbadapter"
	storetypes "cosmossdk.io/store/types"
	dbm "github.com/cosmos/cosmos-db"

	"github.com/initia-labs/minievm/indexer"
)

func init() { monitors["X04"] = monX04 }

// kvRun drives one cached store beside a plain map.
type kvRun struct {
	r     *R
	id    string
	rng   *rand.Rand
	db    dbm.DB
	s     *indexer.CacheStore
	cap   int
	live  map[string]string // what readers must see
	flush map[string]string // what the database must hold
	keys  []string
	trace []string
	style string
}

func (k *kvRun) bad(sig, f string, a ...any) {
	t := k.trace
	if len(t) > 12 {
		t = t[len(t)-12:]
	}
	k.r.Violate(k.id, sig, "%s\n  last operations: %s", fmt.Sprintf(f, a...), strings.Join(t, "; "))
}

func (k *kvRun) note(f string, a ...any) {
	k.trace = append(k.trace, fmt.Sprintf(f, a...))
	if len(k.trace) > 64 {
		k.trace = k.trace[32:]
	}
}

func short(b string) string {
	if len(b) > 16 {
		return fmt.Sprintf("%x…(%d)", b[:16], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (k *kvRun) key() string {
	if len(k.keys) > 0 && k.rng.Intn(4) > 0 {
		return k.keys[k.rng.Intn(len(k.keys))]
	}
	var b []byte
	switch k.rng.Intn(5) {
	case 0: // within a prefix, as the index uses
		b = append([]byte{0x10, byte(k.rng.Intn(4)), 0}, byte(k.rng.Intn(256)))
	case 1:
		b = make([]byte, 1+k.rng.Intn(3))
		k.rng.Read(b)
	case 2:
		b = make([]byte, 33)
		k.rng.Read(b)
		b[0] = 0x20
	case 3:
		b = bytes.Repeat([]byte{0xff}, 1+k.rng.Intn(3))
	case 4:
		b = make([]byte, 200+k.rng.Intn(2000))
		k.rng.Read(b)
	}
	if len(k.keys) < 300 {
		k.keys = append(k.keys, string(b))
	}
	return string(b)
}

func (k *kvRun) value() string {
	n := 0
	switch k.style {
	case "tiny":
		n = k.rng.Intn(8)
	case "shard": // around what one shard of the cache can take
		n = []int{500, 900, 1000, 1024, 1100, 2000, 5000}[k.rng.Intn(7)] + k.rng.Intn(60)
	case "huge":
		n = k.rng.Intn(300_000)
	default:
		n = []int{k.rng.Intn(8), k.rng.Intn(600), k.rng.Intn(1500), k.rng.Intn(4000), k.rng.Intn(200_000)}[k.rng.Intn(5)]
	}
	b := make([]byte, n)
	k.rng.Read(b)
	return string(b)
}

func (k *kvRun) get(key string) {
	want, has := k.live[key]
	if k.rng.Intn(3) == 0 {
		h, err := k.s.Has([]byte(key))
		k.note("has %s", short(key))
		k.r.Eval(1)
		if err != nil || h != has {
			k.bad("has", "Has(%s) = %v, %v; written: %v", short(key), h, err, has)
		}
		return
	}
	k.note("get %s", short(key))
	v, err := k.s.Get([]byte(key))
	k.r.Eval(1)
	switch {
	case err != nil:
		k.bad("get-error", "Get(%s): %v", short(key), err)
	case has && v == nil:
		k.bad("get-lost", "Get(%s) finds nothing, written is %s", short(key), short(want))
	case !has && v != nil:
		k.bad("get-ghost", "Get(%s) = %s, but nothing is written", short(key), short(string(v)))
	case string(v) != want:
		k.bad("get-stale", "Get(%s) = %s, written is %s", short(key), short(string(v)), short(want))
	}
}

func (k *kvRun) iterate() {
	var lo, hi []byte
	switch k.rng.Intn(4) {
	case 0:
	case 1:
		lo = []byte(k.key())
	case 2:
		hi = []byte(k.key())
	case 3:
		lo, hi = []byte(k.key()), []byte(k.key())
		if bytes.Compare(lo, hi) > 0 {
			lo, hi = hi, lo
		}
		if bytes.Equal(lo, hi) {
			hi = append(hi, 0)
		}
	}
	var want []string
	for key := range k.live {
		if (lo == nil || key >= string(lo)) && (hi == nil || key < string(hi)) {
			want = append(want, key)
		}
	}
	sort.Strings(want)
	rev := k.rng.Intn(2) == 0
	var it storetypes.Iterator
	var err error
	k.note("iterate %s..%s reverse=%v", short(string(lo)), short(string(hi)), rev)
	if rev {
		sort.Sort(sort.Reverse(sort.StringSlice(want)))
		it, err = k.s.ReverseIterator(lo, hi)
	} else {
		it, err = k.s.Iterator(lo, hi)
	}
	k.r.Eval(1)
	if err != nil {
		k.bad("iterator-error", "%v", err)
		return
	}
	defer it.Close()
	i := 0
	stop := -1
	if len(want) > 0 && k.rng.Intn(4) == 0 {
		stop = k.rng.Intn(len(want))
	}
	for ; it.Valid() && i != stop; it.Next() {
		if i >= len(want) || string(it.Key()) != want[i] {
			exp := "the end"
			if i < len(want) {
				exp = short(want[i])
			}
			k.bad("iterate", "entry %d of %s..%s reverse=%v is %s, not %s", i, short(string(lo)), short(string(hi)), rev, short(string(it.Key())), exp)
			return
		}
		if string(it.Value()) != k.live[want[i]] {
			k.bad("iterate-value", "iterating: %s has %s, written is %s", short(want[i]), short(string(it.Value())), short(k.live[want[i]]))
			return
		}
		i++
	}
	if i < len(want) && i != stop {
		k.bad("iterate-short", "iterating %s..%s reverse=%v ends after %d of %d entries", short(string(lo)), short(string(hi)), rev, i, len(want))
	}
}

func (k *kvRun) database(when string) {
	it, err := k.db.Iterator(nil, nil)
	must(err)
	defer it.Close()
	n := 0
	k.r.Eval(1)
	for ; it.Valid(); it.Next() {
		n++
		want, ok := k.flush[string(it.Key())]
		if !ok {
			k.bad("database", "%s: the database holds %s, which was never flushed", when, short(string(it.Key())))
			return
		}
		if want != string(it.Value()) {
			k.bad("database", "%s: the database holds %s for %s, flushed was %s", when, short(string(it.Value())), short(string(it.Key())), short(want))
			return
		}
	}
	if n != len(k.flush) {
		for key := range k.flush {
			if v, _ := k.db.Get([]byte(key)); v == nil {
				k.bad("database", "%s: the database lost %s (%d of %d entries)", when, short(key), n, len(k.flush))
				return
			}
		}
	}
}

func monX04(r *R) {
	r.Rule = "distinct = sequence of three successive operations crossed with the state of the key (absent, written, flushed, deleted since), the class of value size and the capacity"
	r.ParCase("store", r.N(250, 40_000), func(id string, rng *rand.Rand) {
		k := &kvRun{r: r, id: id, rng: rng, db: dbm.NewMemDB(), cap: []int{1, 1, 1, 2, 8}[rng.Intn(5)], live: map[string]string{}, flush: map[string]string{}}
		k.style = []string{"tiny", "shard", "mixed", "mixed", "huge"}[rng.Intn(5)]
		k.s = indexer.NewCacheStore(dbadapter.Store{DB: k.db}, k.cap)
		steps := 400
		if k.style == "huge" {
			steps = 120
		}
		last := []string{"", ""}
		for i := 0; i < steps; i++ {
			op := []string{"set", "set", "set", "get", "get", "get", "get", "delete", "iterate", "write", "check", "reopen"}[rng.Intn(12)]
			if (op == "iterate" || op == "check") && rng.Intn(3) > 0 || op == "reopen" && rng.Intn(8) > 0 {
				op = "get"
			}
			st := ""
			switch op {
			case "set":
				key, v := k.key(), k.value()
				st = k.state(key)
				k.note("set %s = %s", short(key), short(v))
				if err := k.s.Set([]byte(key), []byte(v)); err != nil {
					k.bad("set-error", "Set(%s, %d bytes): %v", short(key), len(v), err)
					return
				}
				k.live[key] = v
				if rng.Intn(3) == 0 {
					k.get(key)
				}
			case "get":
				key := k.key()
				st = k.state(key)
				k.get(key)
			case "delete":
				key := k.key()
				st = k.state(key)
				k.note("delete %s", short(key))
				if err := k.s.Delete([]byte(key)); err != nil {
					k.bad("delete-error", "Delete(%s): %v", short(key), err)
					return
				}
				delete(k.live, key)
				if rng.Intn(2) == 0 {
					k.get(key)
				}
			case "iterate":
				k.iterate()
			case "write":
				k.database("before a flush")
				k.note("write")
				k.s.Write()
				k.flush = map[string]string{}
				for a, b := range k.live {
					k.flush[a] = b
				}
				k.database("after a flush")
			case "check":
				k.database("without a flush")
			case "reopen":
				k.note("reopen")
				k.s = indexer.NewCacheStore(dbadapter.Store{DB: k.db}, k.cap)
				k.live = map[string]string{}
				for a, b := range k.flush {
					k.live[a] = b
				}
			}
			r.Count("op_"+op, 1)
			r.Distinct(fmt.Sprintf("%s|%s|%s|%s|%s|%d", last[0], last[1], op, st, k.style, k.cap))
			last[0], last[1] = last[1], op
		}
		for _, key := range k.keys {
			k.get(key)
		}
		k.iterate()
		r.Count("stores", 1)
	})
}

func (k *kvRun) state(key string) string {
	v, l := k.live[key]
	w, f := k.flush[key]
	switch {
	case l && f && v == w:
		return "flushed"
	case l && f:
		return "overwritten"
	case l:
		return "written"
	case f:
		return "deleted"
	}
	return "absent"
}
