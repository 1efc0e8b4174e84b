package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	evmconfig "github.com/initia-labs/minievm/x/evm/config"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["X06"] = monX06 }

// diskDBs are databases of the kind nodes use. (The in-memory one locks up when an
// iteration reads beside a writer.)
func diskDBs(n int) (out []dbm.DB, done func()) {
	dir, err := os.MkdirTemp("", "verif-db-")
	must(err)
	for i := 0; i < n; i++ {
		db, err := dbm.NewGoLevelDB(fmt.Sprintf("d%d", i), dir, nil)
		must(err)
		out = append(out, db)
	}
	return out, func() {
		for _, d := range out {
			_ = d.Close()
		}
		_ = os.RemoveAll(dir)
	}
}

// pair is a chain which ran alone, with its interface, and another node that runs the same
// blocks in company.
type pair struct {
	x   *hrun
	ref *verifkit.Node
	c   *verifkit.Chain
	n   *verifkit.Node
	// com is the last committed block, fin the last one begun
	com, fin atomic.Int64
	mu       sync.Mutex
	memo     map[string]string
	txs      map[common.Hash]int64
	hashes   map[common.Hash]int64
	order    []common.Hash
	blocks   []common.Hash
	first    int64
	bad      func(sig, f string, a ...any)
}

func newPair(x *hrun, rng *rand.Rand, dbs []dbm.DB) *pair {
	p := &pair{x: x, memo: map[string]string{}, txs: map[common.Hash]int64{}, hashes: map[common.Hash]int64{}}
	p.bad = func(sig, f string, a ...any) { x.r.Violate(x.id, sig, f, a...) }
	p.ref = x.state["node"].(*verifkit.Node)
	ec := *x.state["ec"].(*evmconfig.EVMConfig)
	ec.IndexerCacheSize = 1 + rng.Intn(8)
	cfg := verifkit.Config{ChainID: x.c.Cfg.ChainID, NAcc: x.c.Cfg.NAcc, GasPrice: x.c.Cfg.GasPrice, RawGenesis: x.c.Genesis, NoBlock: true, Indexer: true, EVMConfig: &ec}
	if dbs != nil {
		cfg.DB, cfg.IndexerDB, cfg.KVIndexerDB = dbs[0], dbs[1], dbs[2]
	}
	p.c = verifkit.NewChain(cfg)
	p.n = p.c.NewNode(nil)
	p.first = x.c.Blocks[0].Height
	for _, b := range x.c.Blocks {
		var blk struct {
			Hash         common.Hash
			Transactions []common.Hash
		}
		must(p.ref.Client.Call(&blk, "eth_getBlockByNumber", hexutil.EncodeUint64(uint64(b.Height)), false))
		p.hashes[blk.Hash] = b.Height
		p.blocks = append(p.blocks, blk.Hash)
		for _, h := range blk.Transactions {
			p.txs[h] = b.Height
			p.order = append(p.order, h)
		}
	}
	return p
}

// replay runs block i on the node in company.
func (p *pair) replay(i int) bool {
	b := p.x.c.Blocks[i]
	p.fin.Store(b.Height)
	res := p.c.FinalizeAt(b.Height, b.Time, b.Hash, b.Txs)
	if !p.x.judge(b, p.c, res, "beside clients") {
		return false
	}
	p.c.Commit()
	p.com.Store(b.Height)
	return p.c.HaltErr == nil
}

// ask6 is one request whose answer a serial node determines.
type ask6 struct {
	method string
	args   func(h int64) []any // with the block it names
	fixed  int64               // the block it is about, 0: the latest
	open   bool                // names a block which may not exist yet
	env    bool                // calls a contract which tells its context
	grpc   func(c *verifkit.Chain, h int64) (string, error)
	// what came
	lo, hi int64
	ans    string
}

func canon(raw json.RawMessage, err error) string {
	if err != nil {
		s := err.Error()
		if i := strings.Index(s, "(latest height"); i > 0 {
			s = s[:i]
		}
		return "error: " + s
	}
	var v any
	if json.Unmarshal(raw, &v) != nil {
		return string(raw)
	}
	bz, _ := json.Marshal(v)
	return string(bz)
}

func rpcRaw(n *verifkit.Node, method string, args ...any) string {
	var raw json.RawMessage
	err := n.Client.Call(&raw, method, args...)
	return canon(raw, err)
}

// make draws a request; head is a committed block.
func (p *pair) make(rng *rand.Rand, z *noise, head int64) *ask6 {
	num := func(h int64) string { return hexutil.EncodeUint64(uint64(h)) }
	tagOr := func(h int64) any {
		if h == 0 {
			return "latest"
		}
		return num(h)
	}
	q := &ask6{}
	if rng.Intn(2) == 0 {
		q.fixed = head
		if rng.Intn(2) == 0 && head > p.first {
			q.fixed = p.first + rng.Int63n(head-p.first+1)
		}
	}
	addr := z.addr()
	switch k := rng.Intn(22); k {
	case 0, 1, 2:
		q.method = []string{"eth_getBalance", "eth_getTransactionCount", "eth_getCode"}[k]
		q.args = func(h int64) []any { return []any{addr, tagOr(h)} }
	case 3:
		q.method = "eth_getStorageAt"
		slot := hexutil.EncodeUint64(uint64(rng.Intn(5)))
		q.args = func(h int64) []any { return []any{addr, slot, tagOr(h)} }
	case 4, 5, 6:
		q.method = "eth_call"
		in := z.input()
		if len(z.envs) > 0 && rng.Intn(3) == 0 {
			addr, in = z.envs[rng.Intn(len(z.envs))], nil
		}
		q.env = slices.Contains(z.envs, addr)
		from := z.addr()
		q.args = func(h int64) []any {
			return []any{map[string]any{"from": from, "to": addr, "data": hexutil.Bytes(in)}, tagOr(h)}
		}
	case 7, 8:
		q.method = "eth_getBlockByNumber"
		full := rng.Intn(2) == 0
		q.args = func(h int64) []any { return []any{tagOr(h), full} }
	case 9:
		q.method = "eth_getBlockReceipts"
		q.args = func(h int64) []any { return []any{tagOr(h)} }
	case 10:
		q.method = []string{"eth_getBlockTransactionCountByNumber", "eth_getTransactionByBlockNumberAndIndex"}[rng.Intn(2)]
		i := hexutil.EncodeUint64(uint64(rng.Intn(4)))
		q.args = func(h int64) []any {
			if q.method == "eth_getBlockTransactionCountByNumber" {
				return []any{tagOr(h)}
			}
			return []any{tagOr(h), i}
		}
	case 11, 12:
		q.method = "eth_getLogs"
		q.fixed = head
		from := p.first + rng.Int63n(head-p.first+1)
		q.args = func(h int64) []any { return []any{map[string]any{"fromBlock": num(from), "toBlock": num(h)}} }
	case 13, 14:
		q.method = []string{"eth_getTransactionByHash", "eth_getTransactionReceipt", "eth_getRawTransactionByHash"}[rng.Intn(3)]
		if len(p.order) == 0 {
			return nil
		}
		t := p.order[rng.Intn(len(p.order))]
		q.fixed = p.txs[t]
		q.open = q.fixed > head
		q.args = func(int64) []any { return []any{t} }
	case 15, 16:
		q.method = []string{"eth_getBlockByHash", "eth_getBlockReceipts", "eth_getBlockTransactionCountByHash"}[rng.Intn(3)]
		t := p.blocks[rng.Intn(len(p.blocks))]
		q.fixed = p.hashes[t]
		q.open = q.fixed > head
		q.args = func(int64) []any {
			if q.method == "eth_getBlockByHash" {
				return []any{t, true}
			}
			return []any{t}
		}
	case 17: // a block to come
		q.method = []string{"eth_getBlockByNumber", "eth_getBlockReceipts"}[rng.Intn(2)]
		q.fixed = head + 1
		q.open = true
		q.args = func(h int64) []any {
			if q.method == "eth_getBlockReceipts" {
				return []any{num(h)}
			}
			return []any{num(h), true}
		}
	case 18:
		q.method = "eth_feeHistory"
		q.fixed = head
		n := hexutil.EncodeUint64(uint64(1 + rng.Intn(4)))
		q.args = func(h int64) []any { return []any{n, num(h), []float64{50}} }
	case 19, 20:
		q.method = "bank.AllBalances"
		q.grpc = func(c *verifkit.Chain, h int64) (string, error) {
			var out banktypes.QueryAllBalancesResponse
			err := grpc(c, h, "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: sdk.AccAddress(addr.Bytes()).String()}, &out)
			return out.Balances.String(), err
		}
	case 21:
		q.method = "bank.TotalSupply"
		q.grpc = func(c *verifkit.Chain, h int64) (string, error) {
			var out banktypes.QueryTotalSupplyResponse
			err := grpc(c, h, "/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{}, &out)
			return out.Supply.String(), err
		}
	}
	return q
}

func (q *ask6) on(n *verifkit.Node, h int64) string {
	if q.grpc != nil {
		s, err := q.grpc(n.C, h)
		if err != nil {
			return canon(nil, err)
		}
		return s
	}
	s := rpcRaw(n, q.method, q.args(h)...)
	if q.env && len(s) > 3+3*64 {
		// the SDK takes the time of a query from the state of the mempool's checks, which moves on
		// later than the committed state does (baseapp.CreateQueryContext)
		s = s[:3+64] + strings.Repeat("t", 64) + s[3+128:]
	}
	return s
}

func (p *pair) put(q *ask6) {
	q.lo = p.com.Load()
	q.ans = q.on(p.n, q.fixed)
	q.hi = p.fin.Load()
}

// want is what the node alone answers about block h.
func (p *pair) want(q *ask6, h int64) string {
	key := q.method + fmt.Sprint(h)
	if q.grpc == nil {
		bz, _ := json.Marshal(q.args(h))
		key += string(bz)
		p.mu.Lock()
		s, ok := p.memo[key]
		p.mu.Unlock()
		if ok {
			return s
		}
	}
	s := q.on(p.ref, h)
	p.mu.Lock()
	p.memo[key] = s
	p.mu.Unlock()
	return s
}

// judge compares an answer with those a serial order would give.
func (p *pair) judge(q *ask6, way string) {
	r := p.x.r
	r.Eval(1)
	if q.fixed != 0 {
		if q.open && q.hi < q.fixed || q.open && (q.ans == "null" || q.ans == `"0x"` || strings.HasPrefix(q.ans, "error:")) {
			if q.ans != `"0x"` && q.ans != "null" && !strings.HasPrefix(q.ans, "error:") && q.fixed > q.hi {
				p.bad("not-yet", "%s: %s%v was answered %.600s though block %d had not begun", way, q.method, q.show(q.fixed), q.ans, q.fixed)
			}
			return
		}
		w := p.want(q, q.fixed)
		r.Distinct(fmt.Sprintf("%s|%s|fixed|ahead%v|%d", way, q.method, q.open, min(int(q.hi-q.lo), 2)))
		if w != q.ans {
			p.bad("serial-fixed", "%s: %s%v asked while blocks %d..%d were made was answered\n%.1500s\na node alone answers\n%.1500s", way, q.method, q.show(q.fixed), q.lo, q.hi, q.ans, w)
		}
		return
	}
	for h := q.lo; h <= q.hi; h++ {
		if p.want(q, h) == q.ans {
			r.Distinct(fmt.Sprintf("%s|%s|latest|%d of %d", way, q.method, h-q.lo, min(int(q.hi-q.lo), 2)))
			return
		}
	}
	p.bad("serial-latest", "%s: %s%v asked while blocks %d..%d were made was answered\n%.1500s\na node alone answers at %d\n%.1500s", way, q.method, q.show(0), q.lo, q.hi, q.ans, q.lo, p.want(q, q.lo))
}

func (q *ask6) show(h int64) string {
	if q.args == nil {
		return fmt.Sprintf("@%d", h)
	}
	bz, _ := json.Marshal(q.args(h))
	return string(bz)
}

// watchdog calls stuck when the group does not finish.
func within(d time.Duration, wg *sync.WaitGroup) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func stacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range bytes.Split(buf[:n], []byte("\n\n")) {
		s := string(g)
		if strings.Contains(s, "minievm/") && (strings.Contains(s, "sync.") || strings.Contains(s, "semacquire") || strings.Contains(s, "chan ")) {
			out = append(out, s)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func monX06(r *R) {
	r.Rule = "distinct = (company, method, whether a block was named, how many blocks were made during the request and which of them the answer tells)"
	cfg := func(rng *rand.Rand, c *verifkit.Config) {
		c.Indexer = true
		c.MaxGas = 0
		if rng.Intn(2) == 0 {
			c.GasPrice = ""
		}
		ec := evmconfig.DefaultEVMConfig()
		ec.IndexerCacheSize = 8
		c.EVMConfig = &ec
	}
	start := func(x *hrun) {
		x.state["ec"] = x.c.Cfg.EVMConfig
		x.state["node"] = x.c.NewNode(nil)
		x.state["p"] = newProbes(x)
	}
	before := func(x *hrun, txs []*TxMeta) []*TxMeta {
		if m := x.state["p"].(*probes).tx(); m != nil {
			txs = append(txs, m)
		}
		return txs
	}
	r.hists("beside", 6, 120, &watch{blocks: 7, per: 9, cfg: cfg, start: start, before: before, end: func(x *hrun) {
		beside(x, x.rng)
	}})
	r.hists("between", 6, 120, &watch{blocks: 6, per: 7, cfg: cfg, start: start, before: before, end: func(x *hrun) {
		between(x, x.rng)
	}})
}

// between makes a block arrive within a request: right after the node told its height, or while
// a contract call runs.
func between(x *hrun, rng *rand.Rand) {
	p := newPair(x, rng, nil)
	z := x.newNoise(p.c, p.n, rng)
	for i := range x.c.Blocks {
		if i == 0 {
			p.replay(0)
			continue
		}
		var asks []*ask6
		head := p.com.Load()
		// one of these gets the block in its middle
		for len(asks) < 16 {
			if q := p.make(rng, z, head); q != nil {
				asks = append(asks, q)
			}
		}
		at := rng.Intn(len(asks))
		if len(z.envs) > 0 {
			e, from := z.envs[rng.Intn(len(z.envs))], z.addr()
			asks[at] = &ask6{method: "eth_call", env: true, fixed: []int64{0, head, head}[rng.Intn(3)], args: func(h int64) []any {
				tag := any("latest")
				if h != 0 {
					tag = hexutil.EncodeUint64(uint64(h))
				}
				return []any{map[string]any{"from": from, "to": e}, tag}
			}}
		}
		ok, hit := true, false
		for k, q := range asks {
			if k >= at && !hit {
				skip := rng.Intn(2)
				p.n.Comet.OnStatus = func() {
					if skip > 0 {
						skip--
						return
					}
					if !hit {
						hit = true
						ok = p.replay(i)
					}
				}
			}
			p.put(q)
			p.n.Comet.OnStatus = nil
		}
		if !hit {
			ok = p.replay(i)
		} else {
			x.r.Count("blocks_within_requests", 1)
		}
		if !ok {
			return
		}
		for _, q := range asks {
			p.judge(q, "between")
		}
	}
}

// beside runs clients of all kinds next to block execution.
func beside(x *hrun, rng *rand.Rand) {
	dbs, done := diskDBs(3)
	defer done()
	p := newPair(x, rng, dbs)
	if !p.replay(0) {
		return
	}
	stop := make(chan struct{})
	stopped := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	var wg sync.WaitGroup
	client := func(name string, f func(rng *rand.Rand)) {
		crng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					p.bad("panic-"+name, "a %s client beside blocks panicked: %v", name, e)
				}
			}()
			f(crng)
		}()
	}
	var amu sync.Mutex
	var asks []*ask6
	for g := 0; g < 3; g++ {
		z := x.newNoise(p.c, p.n, rand.New(rand.NewSource(rng.Int63())))
		client("asking", func(rng *rand.Rand) {
			for n := 0; !stopped() && n < 600; n++ {
				if q := p.make(rng, z, p.com.Load()); q != nil {
					p.put(q)
					amu.Lock()
					asks = append(asks, q)
					amu.Unlock()
				}
			}
		})
	}
	// whatever else clients do: estimates, filters, simulations, pools
	var all [][]byte
	for _, b := range x.c.Blocks {
		all = append(all, b.Txs...)
	}
	for g := 0; g < 2; g++ {
		z := x.newNoise(p.c, p.n, rand.New(rand.NewSource(rng.Int63())))
		z.head = p.com.Load
		z.abci, z.txs = false, all
		client("any", func(rng *rand.Rand) {
			for n := 0; !stopped() && n < 600; n++ {
				z.ask()
			}
		})
	}
	// submissions, and the mempool's own checks
	for g := 0; g < 3; g++ {
		sz := x.newNoise(p.c, p.n, rand.New(rand.NewSource(rng.Int63())))
		sz.head, sz.txs = p.com.Load, all
		client("submitting", func(rng *rand.Rand) {
			z := sz
			for n := 0; !stopped() && n < 400; n++ {
				if g == 0 && rng.Intn(3) == 0 {
					_, _ = p.c.CheckLocked(&abci.RequestCheckTx{Tx: z.tx(), Type: abci.CheckTxType(rng.Intn(2))}, nil)
					continue
				}
				tx, err := p.c.App.TxDecode(all[rng.Intn(len(all))])
				if err != nil {
					continue
				}
				et, _, err := ethOf(x.c, tx)
				if err != nil || et == nil {
					continue
				}
				raw, err := et.MarshalBinary()
				must(err)
				_ = z.rpc("eth_sendRawTransaction", hexutil.Bytes(raw))
				x.r.Count("submissions", 1)
			}
		})
	}
	// subscriptions come and go
	for g := 0; g < 2; g++ {
		g := g
		client("listening", func(rng *rand.Rand) {
			for n := 0; !stopped() && n < 60; n++ {
				w := newWire(p.n, 0)
				var ids []string
				for k := 0; k < 1+rng.Intn(4); k++ {
					var id string
					what := []any{[]any{"newHeads"}, []any{"logs", map[string]any{}}, []any{"newPendingTransactions"}, []any{"newPendingTransactions", true}}[rng.Intn(4)].([]any)
					if err := w.call(&id, "eth_subscribe", what...); err == nil {
						ids = append(ids, id)
					}
				}
				for k := 0; k < rng.Intn(20) && !stopped(); k++ {
					time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
				}
				for _, id := range ids {
					if rng.Intn(2) == 0 {
						var ok bool
						_ = w.call(&ok, "eth_unsubscribe", id)
					}
				}
				p.heads(w)
				_ = w.conn.Close()
				x.r.Count("listeners", 1)
			}
			_ = g
		})
	}
	// filters of clients which poll
	client("polling", func(rng *rand.Rand) {
		var ids []string
		for n := 0; !stopped() && n < 400; n++ {
			switch rng.Intn(5) {
			case 0:
				var id string
				if p.n.Client.Call(&id, "eth_newFilter", map[string]any{}) == nil {
					ids = append(ids, id)
				}
			case 1:
				var id string
				if p.n.Client.Call(&id, []string{"eth_newBlockFilter", "eth_newPendingTransactionFilter"}[rng.Intn(2)]) == nil {
					ids = append(ids, id)
				}
			case 2:
				if len(ids) > 0 {
					var ok bool
					i := rng.Intn(len(ids))
					_ = p.n.Client.Call(&ok, "eth_uninstallFilter", ids[i])
					ids = append(ids[:i], ids[i+1:]...)
				}
			default:
				if len(ids) > 0 {
					var out any
					_ = p.n.Client.Call(&out, []string{"eth_getFilterChanges", "eth_getFilterLogs"}[rng.Intn(2)], ids[rng.Intn(len(ids))])
				}
			}
			x.r.Count("polls", 1)
		}
	})
	// a client which takes its time between polls: what it was given is its own
	client("slow polling", func(rng *rand.Rand) {
		var ids [3]string
		for i, m := range []string{"eth_newBlockFilter", "eth_newPendingTransactionFilter", "eth_newBlockFilter"} {
			_ = p.n.Client.Call(&ids[i], m)
		}
		for n := 0; !stopped() && n < 400; n++ {
			for _, id := range ids {
				var out any
				_ = p.n.Client.Call(&out, "eth_getFilterChanges", id)
			}
			x.r.Count("slow_polls", 1)
			time.Sleep(time.Duration(10+rng.Intn(40)) * time.Millisecond)
		}
	})
	prod := make(chan bool, 1)
	prng := rand.New(rand.NewSource(rng.Int63()))
	go func() {
		rng := prng
		ok := true
		for i := 1; i < len(x.c.Blocks) && ok; i++ {
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			ok = p.replay(i)
		}
		prod <- ok
	}()
	select {
	case <-prod:
	case <-time.After(150 * time.Second):
		p.bad("stuck-blocks", "block execution beside clients made no progress for minutes:\n%s", stacks())
		close(stop)
		return
	}
	time.Sleep(time.Duration(rng.Intn(10)) * time.Millisecond)
	close(stop)
	if !within(150*time.Second, &wg) {
		p.bad("stuck-clients", "clients did not finish:\n%s", stacks())
		return
	}
	moved := 0
	for _, q := range asks {
		p.judge(q, "beside")
		if q.hi > q.lo {
			moved++
		}
	}
	x.r.Count("answers", len(asks))
	x.r.Count("answers_during_a_block", moved)
	// and alone again, the node knows what the other knows
	z := x.newNoise(p.c, p.n, rng)
	for i := 0; i < 60; i++ {
		if q := p.make(rng, z, p.com.Load()); q != nil {
			p.put(q)
			p.judge(q, "after")
		}
	}
	x.r.Sample("%s: %d answers, %d of them during a block; first %s", x.id, len(asks), moved, first6(asks))
}

func first6(a []*ask6) string {
	if len(a) == 0 {
		return ""
	}
	return fmt.Sprintf("%s%s lo=%d hi=%d %.120s", a[0].method, a[0].show(a[0].fixed), a[0].lo, a[0].hi, a[0].ans)
}

// heads checks the blocks a subscriber was told: in order, without holes, those of the chain.
func (p *pair) heads(w *wire) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for id, msgs := range w.subs {
		last := int64(0)
		for _, m := range msgs {
			var h struct {
				Number *hexutil.Big
				Hash   common.Hash
			}
			if json.Unmarshal(m, &h) != nil || h.Number == nil || h.Hash == (common.Hash{}) || !bytes.Contains(m, []byte("parentHash")) {
				continue
			}
			n := (*big.Int)(h.Number).Int64()
			p.x.r.Eval(1)
			if p.hashes[h.Hash] != n {
				p.bad("head", "subscription %s was told block %d with hash %s, which is not the chain's", id, n, h.Hash)
			}
			if last != 0 && n != last+1 {
				p.bad("head-order", "subscription %s was told block %d after block %d", id, n, last)
			}
			last = n
		}
	}
}
