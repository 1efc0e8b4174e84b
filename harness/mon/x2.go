package main

import (
	"fmt"
	"math/rand"

	dbm "github.com/cosmos/cosmos-db"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"

	evmconfig "github.com/initia-labs/minievm/x/evm/config"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["X02"] = monX02 }

// crit is a log query.
type crit struct {
	addrs  []common.Address
	topics [][]common.Hash // nil entry: anything
	from   *int64          // nil: not given; negative: a tag
	to     *int64
	hash   *common.Hash
}

var blockTags = map[int64]string{-1: "latest", -2: "earliest", -3: "safe", -4: "finalized"}

func tagArg(v int64) string {
	if t, ok := blockTags[v]; ok {
		return t
	}
	return hexutil.EncodeUint64(uint64(v))
}

// args renders the query as a client may write it.
func (q *crit) args(rng *rand.Rand) map[string]any {
	m := map[string]any{}
	if q.hash != nil {
		m["blockHash"] = *q.hash
	}
	if q.from != nil {
		m["fromBlock"] = tagArg(*q.from)
	}
	if q.to != nil {
		m["toBlock"] = tagArg(*q.to)
	}
	switch {
	case len(q.addrs) == 1 && rng.Intn(2) == 0:
		m["address"] = q.addrs[0]
	case len(q.addrs) > 0 || rng.Intn(4) == 0:
		m["address"] = append([]common.Address{}, q.addrs...)
	}
	if q.topics != nil {
		ts := []any{}
		for _, t := range q.topics {
			switch {
			case len(t) == 0 && rng.Intn(2) == 0:
				ts = append(ts, []any{})
			case len(t) == 0:
				ts = append(ts, nil)
			case len(t) == 1 && rng.Intn(2) == 0:
				ts = append(ts, t[0])
			default:
				ts = append(ts, append([]common.Hash{}, t...))
			}
		}
		m["topics"] = ts
	}
	return m
}

// matches applies the rules of the Ethereum JSON-RPC specification to one log.
func (q *crit) matches(l *coretypes.Log) bool {
	if len(q.addrs) > 0 {
		ok := false
		for _, a := range q.addrs {
			ok = ok || a == l.Address
		}
		if !ok {
			return false
		}
	}
	if len(q.topics) > len(l.Topics) {
		return false
	}
	for i, alt := range q.topics {
		ok := len(alt) == 0
		for _, t := range alt {
			ok = ok || t == l.Topics[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

// resolve gives the heights asked for; ok is false when the query makes no sense.
func (q *crit) resolve(head int64) (from, to int64, ok bool) {
	at := func(v *int64) int64 {
		switch {
		case v == nil || *v == -1 || *v == -3 || *v == -4:
			return head
		case *v == -2 || *v == 0:
			return 1
		}
		return *v
	}
	from, to = at(q.from), at(q.to)
	return from, to, from <= to
}

func (q *crit) shape() string {
	p := func(v *int64) string {
		switch {
		case v == nil:
			return "-"
		case *v < 0:
			return blockTags[*v]
		}
		return "n"
	}
	s := fmt.Sprintf("a%d f%s t%s h%v ", min(len(q.addrs), 3), p(q.from), p(q.to), q.hash != nil)
	for _, t := range q.topics {
		s += fmt.Sprint(min(len(t), 3))
	}
	return s
}

// logPool is what queries are made of.
type logPool struct {
	book *ethBook
	rng  *rand.Rand
}

func (p *logPool) log() *coretypes.Log {
	for i := 0; i < 50; i++ {
		k := p.book.blocks[p.rng.Intn(len(p.book.blocks))]
		if len(k.logs) > 0 {
			return k.logs[p.rng.Intn(len(k.logs))]
		}
	}
	return nil
}

// what draws addresses and topics.
func (p *logPool) what(q *crit) {
	rng := p.rng
	l := p.log()
	rnd := func() (h common.Hash) { rng.Read(h[:]); return }
	if l == nil {
		return
	}
	if rng.Intn(2) == 0 {
		for i := 0; i < 1+rng.Intn(3); i++ {
			q.addrs = append(q.addrs, []common.Address{l.Address, p.log().Address, common.BytesToAddress(rnd().Bytes())}[rng.Intn(3)])
		}
	}
	if rng.Intn(3) > 0 {
		q.topics = [][]common.Hash{}
		for i := 0; i < rng.Intn(5); i++ {
			var alt []common.Hash
			for j := 0; j < rng.Intn(4); j++ {
				o := l
				if rng.Intn(3) == 0 {
					o = p.log()
				}
				switch {
				case rng.Intn(6) == 0:
					alt = append(alt, rnd())
				case i < len(o.Topics) && rng.Intn(8) > 0:
					alt = append(alt, o.Topics[i])
				case len(o.Topics) > 0:
					alt = append(alt, o.Topics[rng.Intn(len(o.Topics))])
				}
			}
			q.topics = append(q.topics, alt)
		}
	}
}

func (p *logPool) where(q *crit, head int64) {
	rng := p.rng
	if rng.Intn(4) == 0 {
		h := p.book.blocks[rng.Intn(len(p.book.blocks))].hash
		if rng.Intn(8) == 0 {
			rng.Read(h[:])
		}
		q.hash = &h
		return
	}
	pos := func() *int64 {
		var v int64
		switch rng.Intn(7) {
		case 0:
			return nil
		case 1:
			v = -1 - int64(rng.Intn(4))
		case 2:
			v = head + int64(rng.Intn(4))
		default:
			v = int64(rng.Intn(int(head) + 1))
		}
		return &v
	}
	q.from, q.to = pos(), pos()
	if q.from != nil && q.to != nil && *q.from > 0 && *q.to > 0 && *q.from > *q.to && rng.Intn(5) > 0 {
		q.from, q.to = q.to, q.from
	}
}

// logFest makes blocks rich in logs.
func logFest(x *hrun, acc *verifkit.Account, n int) []*TxMeta {
	var txs []*TxMeta
	for i := 0; i < n; i++ {
		// init code which logs: topics and data from a small alphabet
		a := verifkit.NewAsm()
		for j := 0; j < 1+x.rng.Intn(6); j++ {
			k := x.rng.Intn(5)
			for t := 0; t < k; t++ {
				a.Push(x.rng.Intn(4))
			}
			a.Push(x.rng.Intn(40)).Push(0).Op(vm.LOG0 + vm.OpCode(k))
		}
		if x.rng.Intn(8) == 0 {
			a.Op(vm.INVALID)
		}
		m := x.ethTx(acc, nil, a.Bytes(), nil, 1_500_000, "logs", func(l *Ledger) bool { return true })
		m.Expect = xLoose
		txs = append(txs, m)
	}
	return txs
}

func indexedCfg(rng *rand.Rand, c *verifkit.Config) {
	c.Indexer = true
	c.DB, c.IndexerDB, c.KVIndexerDB = dbm.NewMemDB(), dbm.NewMemDB(), dbm.NewMemDB()
	ec := evmconfig.DefaultEVMConfig()
	ec.IndexerCacheSize = []int{1, 2, 8}[rng.Intn(3)]
	c.EVMConfig = &ec
}

func (b *ethBook) learnAll(n *verifkit.Node) {
	for _, k := range b.blocks {
		if k.hash == (common.Hash{}) {
			var rb *rpcBlock
			if err := call(n, &rb, "eth_getBlockByNumber", hexutil.EncodeUint64(uint64(k.height)), false); err == nil && rb != nil {
				b.learn(k, rb.Hash)
			}
		}
	}
}

func monX02(r *R) {
	r.Rule = "distinct = log queries differing in the number of addresses, the alternatives per topic position, the way the range is given, and whether they matched nothing, some or all logs of it"
	r.hists("logs", 16, 400, &watch{blocks: 7, per: 8, cfg: indexedCfg, start: func(x *hrun) {
		x.state["acc"] = x.users[len(x.users)-1]
		x.state["n"] = x.c.NewNode(nil)
		x.state["book"] = newEthBook()
		x.dirty[string(x.users[len(x.users)-1].Acc)] = true
	}, before: func(x *hrun, txs []*TxMeta) []*TxMeta {
		txs = append(txs, logFest(x, x.state["acc"].(*verifkit.Account), 5)...)
		return txs
	}, block: func(x *hrun, txs []*TxMeta) {
		x.dirty[string(x.users[len(x.users)-1].Acc)] = true
		book, n := x.state["book"].(*ethBook), x.state["n"].(*verifkit.Node)
		book.sync(x)
		book.learnAll(n)
		askLogs(x, book, n, 25)
		if x.rng.Intn(6) == 0 {
			x.reopen(nil)
			x.state["n"] = x.c.NewNode(nil)
			x.dirty[string(x.users[len(x.users)-1].Acc)] = true
			x.r.Count("restarts", 1)
		}
	}, end: func(x *hrun) {
		askLogs(x, x.state["book"].(*ethBook), x.state["n"].(*verifkit.Node), 250)
	}})
}

func askLogs(x *hrun, book *ethBook, n *verifkit.Node, times int) {
	p := &logPool{book, x.rng}
	head := x.c.Height
	for i := 0; i < times; i++ {
		q := &crit{}
		p.what(q)
		p.where(q, head)
		var want []*coretypes.Log
		good := true
		total := 0
		if q.hash != nil {
			good = false
			for _, k := range book.blocks {
				if k.hash == *q.hash {
					good = true
					for _, l := range k.logs {
						total++
						if q.matches(l) {
							want = append(want, l)
						}
					}
				}
			}
		} else {
			from, to, ok := q.resolve(head)
			good = ok
			for h := from; ok && h <= to && h <= head; h++ {
				for _, l := range book.blocks[h-1].logs {
					total++
					if q.matches(l) {
						want = append(want, l)
					}
				}
			}
		}
		args := q.args(x.rng)
		var got []*coretypes.Log
		how := "eth_getLogs"
		var err error
		if x.rng.Intn(5) == 0 {
			how = "eth_getFilterLogs"
			var id string
			if err = call(n, &id, "eth_newFilter", args); err != nil {
				continue // ranges a filter cannot have
			}
			err = call(n, &got, how, id)
			var ok bool
			if e := call(n, &ok, "eth_uninstallFilter", id); e != nil || !ok {
				x.bad("uninstall", "the filter %s cannot be uninstalled: %v %v", id, ok, e)
			}
		} else {
			err = call(n, &got, how, args)
		}
		x.r.Eval(1)
		share := "none"
		switch {
		case !good:
			share = "senseless"
		case len(want) == total && total > 0:
			share = "all"
		case len(want) > 0:
			share = "some"
		}
		x.r.Distinct(how + " " + q.shape() + share)
		x.r.Count("queries_"+share, 1)
		x.r.Count("logs_returned", len(got))
		switch {
		case !good:
			if err == nil && len(got) > 0 {
				x.bad("senseless", "%s %v answers %d logs", how, args, len(got))
			}
		case err != nil:
			x.bad("error", "%s %v: %v", how, args, err)
		default:
			if d := sameLogs(want, got); d != "" {
				x.bad("logs", "%s %v: %s", how, args, d)
			}
			if got == nil {
				x.bad("null", "%s %v answers null", how, args)
			}
		}
	}
}
