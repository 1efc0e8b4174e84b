package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// X08: no request and no client can bring the node down, wedge it or leave something behind.

func init() { monitors["X08"] = monX08 }

// methods8 are the methods of the node and the kinds of their parameters.
var methods8 = map[string]string{
	"eth_blockNumber": "", "eth_getBlockByNumber": "bn bool", "eth_getBlockByHash": "hash bool", "eth_getBlockReceipts": "bnh",
	"eth_getTransactionByHash": "hash", "eth_getRawTransactionByHash": "hash", "eth_getRawTransactionByBlockHashAndIndex": "hash uint",
	"eth_getTransactionCount": "addr bnh", "eth_getTransactionReceipt": "hash", "eth_getBlockTransactionCountByHash": "hash",
	"eth_getBlockTransactionCountByNumber": "bn", "eth_getTransactionByBlockHashAndIndex": "hash uint",
	"eth_getTransactionByBlockNumberAndIndex": "bn uint", "eth_sendRawTransaction": "raw", "eth_getBalance": "addr bnh",
	"eth_getStorageAt": "addr key bnh", "eth_getCode": "addr bnh", "eth_call": "call bnh so bo", "eth_gasPrice": "",
	"eth_estimateGas": "call bnh so", "eth_feeHistory": "uint bn pct", "eth_maxPriorityFeePerGas": "", "eth_chainId": "",
	"eth_getUncleByBlockHashAndIndex": "hash uint", "eth_getUncleByBlockNumberAndIndex": "bn uint", "eth_getUncleCountByBlockHash": "hash",
	"eth_getUncleCountByBlockNumber": "bn", "eth_hashrate": "", "eth_mining": "", "eth_syncing": "", "eth_pendingTransactions": "",
	"eth_newPendingTransactionFilter": "bool", "eth_newBlockFilter": "", "eth_newFilter": "crit", "eth_getLogs": "crit",
	"eth_uninstallFilter": "id", "eth_getFilterLogs": "id", "eth_getFilterChanges": "id", "eth_subscribe": "sub crit", "eth_unsubscribe": "id",
	"txpool_content": "", "txpool_contentFrom": "addr", "txpool_inspect": "", "txpool_status": "",
	"net_listening": "", "net_peerCount": "", "net_version": "", "web3_clientVersion": "", "web3_sha3": "raw",
	"cosmos_cosmosTxHashByTxHash": "hash", "cosmos_txHashByCosmosTxHash": "hash",
}

var names8 = func() (out []string) {
	for k := range methods8 {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

// hostile8 makes requests.
type hostile8 struct {
	x     *hrun
	rng   *rand.Rand
	n     *verifkit.Node
	hash  []string
	raws  []string
	who   []string
	ids   []string
	mu    sync.Mutex
	first int64
}

func (g *hostile8) learn() {
	g.hash = nil
	for _, b := range g.x.c.Blocks {
		var blk struct {
			Hash         common.Hash
			Transactions []common.Hash
		}
		if g.n.Client.Call(&blk, "eth_getBlockByNumber", hexutil.EncodeUint64(uint64(b.Height)), false) != nil {
			continue
		}
		g.hash = append(g.hash, blk.Hash.Hex())
		for _, h := range blk.Transactions {
			g.hash = append(g.hash, h.Hex())
		}
	}
	g.who = nil
	for _, u := range g.x.users {
		g.who = append(g.who, u.Eth.Hex())
	}
	for _, p := range g.x.puppets {
		g.who = append(g.who, p.Hex())
	}
	for _, t := range g.x.tokens {
		g.who = append(g.who, t.addr.Hex())
	}
	g.who = append(g.who, cosmosAddr.Hex(), registryPrecompile.Hex(), g.x.factory.Hex(), evmtypes.NullAddress.Hex(), "0x0000000000000000000000000000000000000002", "0x0000000000000000000000000000000000000005", "0x000000000000000000000000000000000000000a")
}

// odd are values no parameter wants.
func (g *hostile8) odd() any {
	switch g.rng.Intn(18) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return "0x"
	case 3:
		return "0x" + strings.Repeat("f", 1+g.rng.Intn(200))
	case 4:
		return -1 - g.rng.Intn(20)
	case 5:
		return json.RawMessage("1e400")
	case 6:
		return json.RawMessage("99999999999999999999999999999")
	case 7:
		return []any{}
	case 8:
		return map[string]any{}
	case 9:
		return true
	case 10:
		return "0x0"
	case 11:
		return "0x00"
	case 12:
		return "latest"
	case 13:
		return json.RawMessage(strings.Repeat("[", 300) + strings.Repeat("]", 300))
	case 14:
		return "\u0000\ufffd" + strings.Repeat("x", 300)
	case 15:
		return 0.5
	case 16:
		return fmt.Sprint(g.rng.Int63())
	}
	return map[string]any{"blockHash": nil, "blockNumber": nil}
}

func (g *hostile8) some(a []string) any {
	if len(a) == 0 {
		return "0x" + strings.Repeat("11", 32)
	}
	return a[g.rng.Intn(len(a))]
}

func (g *hostile8) num() any {
	h := uint64(g.x.c.Height)
	switch g.rng.Intn(12) {
	case 0:
		return "latest"
	case 1:
		return "pending"
	case 2:
		return "earliest"
	case 3:
		return []string{"safe", "finalized"}[g.rng.Intn(2)]
	case 4:
		return "0x0"
	case 5:
		return hexutil.EncodeUint64(h)
	case 6:
		return hexutil.EncodeUint64(h + 1 + uint64(g.rng.Intn(3)))
	case 7:
		return "0x7fffffffffffffff"
	case 8:
		return []string{"0xffffffffffffffff", "0x8000000000000000", "0x7ffffffffffffffe"}[g.rng.Intn(3)]
	}
	return hexutil.EncodeUint64(uint64(g.first) + uint64(g.rng.Int63n(g.x.c.Height-g.first+1)))
}

func (g *hostile8) quantity() any {
	return []any{"0x0", "0x1", "0x5", "0x64", "0xffffffff", "0x7fffffff", "0x7fffffffffffffff", "0xffffffffffffffff", "0x8000000000000000", "0x" + strings.Repeat("f", 64), "0x989680", 3}[g.rng.Intn(12)]
}

func (g *hostile8) bytes(max int) string {
	bz := make([]byte, g.rng.Intn(max+1))
	g.rng.Read(bz)
	return hexutil.Encode(bz)
}

func (g *hostile8) word() string {
	if g.rng.Intn(2) == 0 {
		return common.BytesToHash([]byte{byte(g.rng.Intn(6))}).Hex()
	}
	var h common.Hash
	g.rng.Read(h[:])
	return h.Hex()
}

// value makes a parameter of a kind: mostly what a client could mean, sometimes not.
func (g *hostile8) value(kind string) any {
	rng := g.rng
	if rng.Intn(8) == 0 {
		return g.odd()
	}
	switch kind {
	case "bool":
		return rng.Intn(2) == 0
	case "hash":
		if rng.Intn(5) == 0 {
			return g.word()
		}
		return g.some(g.hash)
	case "bn":
		return g.num()
	case "bnh":
		switch rng.Intn(5) {
		case 0:
			return g.some(g.hash)
		case 1:
			return map[string]any{"blockHash": g.some(g.hash), "requireCanonical": rng.Intn(2) == 0}
		case 2:
			return map[string]any{"blockNumber": g.num()}
		}
		return g.num()
	case "addr":
		if rng.Intn(6) == 0 {
			return "0x" + strings.Repeat("0", 39) + fmt.Sprint(rng.Intn(10))
		}
		return g.some(g.who)
	case "uint":
		return g.quantity()
	case "key":
		return []any{"0x0", "0x00", "0", "", g.word(), g.quantity(), "0x" + strings.Repeat("0", 65), strings.Repeat("a", 64)}[rng.Intn(8)]
	case "pct":
		switch rng.Intn(6) {
		case 0:
			return []any{}
		case 1:
			return []any{50, 50}
		case 2:
			return []any{-0.0, 1e-300, 100}
		case 3:
			a := make([]any, 101)
			for i := range a {
				a[i] = float64(i) * 0.9
			}
			return a[:100+rng.Intn(2)]
		case 4:
			return []any{"NaN"}
		}
		return []any{rng.Float64() * 10, 20 + rng.Float64()*60, 100}
	case "raw":
		if len(g.raws) > 0 && rng.Intn(3) > 0 {
			bz := hexutil.MustDecode(g.raws[rng.Intn(len(g.raws))])
			switch rng.Intn(4) {
			case 0:
				bz = bz[:rng.Intn(len(bz)+1)]
			case 1:
				bz[rng.Intn(len(bz))] ^= 1 << rng.Intn(8)
			case 2:
				bz = append(bz, bz...)
			}
			return hexutil.Encode(bz)
		}
		return g.bytes(200)
	case "id":
		g.mu.Lock()
		defer g.mu.Unlock()
		if len(g.ids) > 0 && rng.Intn(4) > 0 {
			return g.ids[rng.Intn(len(g.ids))]
		}
		return "0x" + strings.Repeat("1", 1+rng.Intn(40))
	case "sub":
		return []any{"newHeads", "logs", "newPendingTransactions", "syncing", "nope"}[rng.Intn(5)]
	case "crit":
		m := map[string]any{}
		if rng.Intn(2) == 0 {
			m["fromBlock"] = g.num()
		}
		if rng.Intn(2) == 0 {
			m["toBlock"] = g.num()
		}
		if rng.Intn(6) == 0 {
			m["blockHash"] = g.some(g.hash)
		}
		switch rng.Intn(4) {
		case 0:
			m["address"] = g.some(g.who)
		case 1:
			m["address"] = []any{g.some(g.who), g.some(g.who), g.odd()}[:rng.Intn(4)]
		}
		if rng.Intn(2) == 0 {
			var ts []any
			for i := rng.Intn(7); i > 0; i-- {
				ts = append(ts, []any{nil, g.word(), []any{}, []any{g.word(), nil}, []any{g.word(), g.word()}, g.odd()}[rng.Intn(6)])
			}
			m["topics"] = ts
		}
		return m
	case "call":
		m := map[string]any{}
		put := func(k string, v any) {
			if rng.Intn(2) == 0 {
				m[k] = v
			}
		}
		put("from", g.some(g.who))
		if rng.Intn(6) > 0 {
			m["to"] = g.some(g.who)
		}
		m["gas"] = []any{"0x0", "0x5208", "0x30d40", "0x3d0900", "0x3d0900", "0x3d0900"}[rng.Intn(6)]
		put("gasPrice", g.quantity())
		put("maxFeePerGas", g.quantity())
		put("maxPriorityFeePerGas", g.quantity())
		put("value", []any{"0x0", "0x1", "0xde0b6b3a7640000", "0x" + strings.Repeat("f", 64), "0x1" + strings.Repeat("0", 64)}[rng.Intn(5)])
		put("nonce", g.quantity())
		put("chainId", g.quantity())
		in := g.calldata()
		put("data", in)
		if rng.Intn(2) == 0 {
			in = g.calldata()
		}
		put("input", in)
		put("accessList", []any{nil, []any{}, []any{map[string]any{"address": g.some(g.who), "storageKeys": []any{g.word(), g.word()}}}, []any{map[string]any{"address": g.some(g.who)}}, g.odd()}[rng.Intn(5)])
		put("blobVersionedHashes", []any{g.word()})
		return m
	case "so":
		m := map[string]any{}
		for i := rng.Intn(3); i > 0; i-- {
			o := map[string]any{}
			for k, v := range map[string]any{"nonce": g.quantity(), "code": g.bytes(30), "balance": g.quantity(), "state": map[string]any{g.word(): g.word()}, "stateDiff": map[string]any{g.word(): g.word()}} {
				if rng.Intn(2) == 0 {
					o[k] = v
				}
				if rng.Intn(10) == 0 {
					o[k] = nil
				}
			}
			m[g.some(g.who).(string)] = o
		}
		return m
	case "bo":
		m := map[string]any{}
		for k, v := range map[string]any{"number": g.quantity(), "difficulty": g.quantity(), "time": g.quantity(), "gasLimit": g.quantity(), "coinbase": g.some(g.who), "random": g.word(), "baseFee": g.quantity(), "blobBaseFee": g.quantity()} {
			if rng.Intn(3) == 0 {
				m[k] = v
			}
		}
		return m
	}
	panic(kind)
}

func (g *hostile8) calldata() string {
	rng := g.rng
	x := g.x
	switch rng.Intn(6) {
	case 0:
		return g.bytes(100)
	case 1:
		return hexutil.Encode(pack(erc20ABI, "balanceOf", x.users[rng.Intn(len(x.users))].Eth))
	case 2:
		return hexutil.Encode(pack(cosmosABI, "query_cosmos", []string{whitelisted[rng.Intn(len(whitelisted))], notWhitelisted[rng.Intn(len(notWhitelisted))], "", "/", "\x00"}[rng.Intn(5)], []string{`{}`, `{"currency_pair":{}}`, `[`, `null`, `{"x":1}`}[rng.Intn(5)]))
	case 3:
		bz := pack(cosmosABI, "to_denom", common.HexToAddress(x.tokens[rng.Intn(len(x.tokens))].addr.Hex()))
		if rng.Intn(2) == 0 {
			bz = bz[:rng.Intn(len(bz))]
		}
		return hexutil.Encode(bz)
	case 4: // lengths and offsets out of reach
		bz := pack(cosmosABI, "execute_cosmos", `{"@type":"/cosmos.bank.v1beta1.MsgSend"}`)
		w := 4 + 32*rng.Intn((len(bz)-4)/32)
		for i := w; i < w+32; i++ {
			bz[i] = []byte{0, 0xff, 0x7f, 0x80}[rng.Intn(4)]
		}
		return hexutil.Encode(bz)
	}
	return "0x"
}

// request is one request of any kind.
func (g *hostile8) request() (string, []any) {
	m := names8[g.rng.Intn(len(names8))]
	if g.rng.Intn(3) == 0 { // what does the most
		m = []string{"eth_call", "eth_estimateGas", "eth_feeHistory", "eth_getLogs", "eth_getFilterLogs", "eth_getFilterChanges", "eth_sendRawTransaction", "eth_newFilter", "eth_uninstallFilter"}[g.rng.Intn(9)]
	}
	var args []any
	for _, k := range strings.Fields(methods8[m]) {
		args = append(args, g.value(k))
	}
	switch g.rng.Intn(8) {
	case 0:
		if len(args) > 0 {
			args = args[:g.rng.Intn(len(args))]
		}
	case 1:
		if g.rng.Intn(3) == 0 {
			args = append(args, g.odd())
		}
	}
	if args == nil {
		args = []any{}
	}
	if g.rng.Intn(400) == 0 {
		m = []string{"eth_nope", "", "_", "eth_", "debug_x", "eth_Call"}[g.rng.Intn(6)]
	}
	return m, args
}

// noted are the honest requests whose answers must stay.
func (g *hostile8) noted() map[string][]any {
	out := map[string][]any{"eth_chainId ": {}, "net_version ": {}}
	for _, b := range g.x.c.Blocks {
		h := hexutil.EncodeUint64(uint64(b.Height))
		out["eth_getBlockByNumber "+h] = []any{h, true}
		out["eth_getBlockReceipts "+h] = []any{h}
		out["eth_getLogs "+h] = []any{map[string]any{"fromBlock": h, "toBlock": h}}
		out["eth_getBalance "+h] = []any{g.who[0], h}
		out["eth_getTransactionCount "+h] = []any{g.who[1], h}
		out["eth_call "+h] = []any{map[string]any{"to": g.x.tokens[0].addr.Hex(), "data": hexutil.Encode(pack(erc20ABI, "balanceOf", g.x.users[0].Eth))}, h}
		out["eth_feeHistory "+h] = []any{"0x2", h, []any{10, 90}}
	}
	return out
}

func monX08(r *R) {
	r.Rule = "distinct = (method, shape of the answer) of hostile requests, and the ways clients behaved (deaf, gone, early) with what the node was doing"
	for i := 0; i < r.N(4, 16); i++ {
		id := fmt.Sprintf("deaf/%d", i)
		r.Case(id, func(rng *rand.Rand) { x8deaf(r, id, rng) })
	}
	for i := 0; i < r.N(2, 10); i++ {
		id := fmt.Sprintf("leave/%d", i)
		r.Case(id, func(rng *rand.Rand) { x8leave(r, id, rng) })
	}
	r.hists("ask", 12, 250, &watch{blocks: 4, per: 8, cfg: func(rng *rand.Rand, c *verifkit.Config) {
		c.Indexer = true
		if rng.Intn(3) == 0 {
			c.InitialHeight = 1 + int64(rng.Intn(40))
		}
	}, start: func(x *hrun) {
		n := x.c.NewNode(nil)
		x.state["g"] = &hostile8{x: x, rng: x.rng, n: n, first: x.c.Blocks[0].Height}
	}, block: func(x *hrun, txs []*TxMeta) {
		g := x.state["g"].(*hostile8)
		g.learn()
		for _, m := range txs {
			if m.Eth != nil {
				bz, err := m.Eth.MarshalBinary()
				must(err)
				g.raws = append(g.raws, hexutil.Encode(bz))
			}
		}
		g.storm(x.r.N(500, 900))
	}})
}

// storm asks and looks what became of the node.
func (g *hostile8) storm(k int) {
	x := g.x
	truth := map[string]string{}
	for name, a := range g.noted() {
		truth[name] = rpcRaw(g.n, strings.Fields(name)[0], a...)
	}
	early := ""
	switch g.rng.Intn(4) {
	case 0: // the node told of a block whose index is not written yet
		g.n.Comet.SetLatest(x.c.Height + 1)
		early = "early"
	case 1:
		if g.rng.Intn(3) == 0 {
			g.n.Comet.SetLatest(0)
			early = "zero"
		}
	}
	w := newWire(g.n, 0)
	for i := 0; i < k; i++ {
		m, a := g.request()
		t := time.Now()
		var raw json.RawMessage
		err := w.call(&raw, m, a...)
		shown := func() string { return fmt.Sprintf("%s%s", m, cut(jsonOf(a), 600)) }
		kind := "result"
		if err != nil {
			kind = "error " + shape8(err.Error())
			switch {
			case strings.Contains(err.Error(), "method handler crashed"):
				x.bad("handler-crash", "%s %s: the method handler crashed", early, shown())
			case strings.Contains(err.Error(), "no answer within"):
				x.bad("no-answer", "%s %s: %v", early, shown(), err)
				return
			case strings.Contains(err.Error(), "closed pipe"):
				w = newWire(g.n, 0)
			}
		} else if m == "eth_newFilter" || m == "eth_newBlockFilter" || m == "eth_newPendingTransactionFilter" || m == "eth_subscribe" {
			var id string
			if json.Unmarshal(raw, &id) == nil {
				g.ids = append(g.ids, id)
			}
		}
		if d := time.Since(t); d > 20*time.Second {
			x.bad("slow", "%s took %v", shown(), d)
		}
		x.r.Eval(1)
		x.r.Count("rpc_"+m, 1)
		x.r.Distinct(early + m + "|" + kind)
		if i%50 == 0 {
			x.r.Sample("%s height %d %s: %s -> %s", x.id, x.c.Height, early, cut(shown(), 200), kind)
		}
	}
	// frames which are no requests
	for i := 0; i < 12; i++ {
		g.garbage()
	}
	if early != "" {
		g.n.Comet.SetLatest(x.c.Height)
	}
	w.conn.Close()
	for name, a := range g.noted() {
		x.r.Eval(1)
		if got := rpcRaw(g.n, strings.Fields(name)[0], a...); got != truth[name] {
			x.bad("changed-"+strings.Fields(name)[0], "%s answered %s before and %s after other requests", name, cut(truth[name], 400), cut(got, 400))
		}
	}
}

// garbage writes what is not JSON-RPC and then looks whether the node still answers others.
func (g *hostile8) garbage() {
	var bz []byte
	switch g.rng.Intn(7) {
	case 0:
		bz = []byte(`{"jsonrpc":"2.0","id":1,"method":"eth_call","params":[{`)
	case 1:
		bz = []byte(`[]`)
	case 2:
		bz = []byte(`[1,2,null,{"id":null}]`)
	case 3: // a batch
		var a []any
		for i := 0; i < 1+g.rng.Intn(40); i++ {
			m, p := g.request()
			a = append(a, map[string]any{"jsonrpc": "2.0", "id": i, "method": m, "params": p})
		}
		bz, _ = json.Marshal(a)
	case 4:
		bz = []byte(`{"jsonrpc":"2.0","method":"eth_subscription","params":{"subscription":"0x1","result":{}}}`)
	case 5:
		bz = []byte(`{"jsonrpc":"1.0","id":{"a":1},"method":"eth_blockNumber","params":{"a":1}}`)
	case 6:
		bz = make([]byte, 300)
		g.rng.Read(bz)
	}
	a, b := net.Pipe()
	go g.n.Server.ServeCodec(rpc.NewCodec(b), 0)
	_ = a.SetDeadline(time.Now().Add(300 * time.Millisecond))
	if g.rng.Intn(2) == 0 {
		go func() { _, _ = a.Write(append(bz, '\n')) }()
		buf := make([]byte, 1<<16)
		_, _ = a.Read(buf)
	} else {
		_, _ = a.Write(append(bz, '\n'))
	}
	a.Close()
	g.x.r.Count("garbage_frames", 1)
	var v hexutil.Uint64
	if err := g.n.Client.Call(&v, "eth_blockNumber"); err != nil {
		g.x.bad("no-answer-others", "after %s: %v", cut(string(bz), 300), err)
	}
}

func jsonOf(v any) string {
	bz, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v", v)
	}
	return string(bz)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// shape8 is an error without what varies.
func shape8(s string) string {
	f := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ':' || r == '\n' })
	var out []string
	for _, w := range f {
		if len(w) < 24 && !strings.ContainsAny(w, "0123456789") {
			out = append(out, w)
		}
		if len(out) == 7 {
			break
		}
	}
	return strings.Join(out, " ")
}

// patience is how long the node may take for what it does in milliseconds, whatever clients do.
const patience8 = 6 * time.Second

// x8deaf has clients which listen to nothing they asked for.
func x8deaf(r *R, id string, rng *rand.Rand) {
	c := verifkit.NewChain(verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 700+rng.Intn(99)), NAcc: 3, Indexer: true})
	x := &hrun{r: r, id: id}
	x.Hist = &Hist{c: c}
	n := c.NewNode(nil)
	kinds := [][]any{{"newHeads"}, {"logs", map[string]any{}}, {"newPendingTransactions"}, {"newPendingTransactions", true}}
	good := newWire(n, 0)
	defer good.conn.Close()
	var heads, pend string
	must(good.call(&heads, "eth_subscribe", "newHeads"))
	must(good.call(&pend, "eth_subscribe", "newPendingTransactions"))
	var deaf []*wire
	names := ""
	for i := 0; i < 1+rng.Intn(4); i++ {
		w := newWire(n, 0)
		for j := 0; j < 1+rng.Intn(3); j++ {
			k := kinds[rng.Intn(len(kinds))]
			var sub string
			must(w.call(&sub, "eth_subscribe", k...))
			names += fmt.Sprint(k[0], " ")
		}
		deaf = append(deaf, w)
	}
	for _, w := range deaf { // from now on nothing is read from these
		w.mu.Lock()
	}
	defer func() {
		for _, w := range deaf {
			w.mu.Unlock()
			w.conn.Close()
		}
	}()
	patient := func(what string, f func()) bool {
		done := make(chan struct{})
		t := time.Now()
		go func() { defer close(done); f() }()
		select {
		case <-done:
		case <-time.After(patience8):
			x.bad("wedged-"+strings.Fields(what)[0], "%s took more than %v beside clients which read nothing of %s:\n%s", what, patience8, names, cut(stacks(), 6000))
			<-done
			return false
		}
		r.Eval(1)
		r.Count("beside_deaf_"+strings.Fields(what)[0], 1)
		r.Distinct(fmt.Sprintf("deaf %s|%s", names, strings.Fields(what)[0]))
		if d := time.Since(t); d > time.Second {
			r.Count("slow_beside_deaf", 1)
		}
		return true
	}
	blocks := 0
	for b := 0; b < 5; b++ {
		blocks = b
		var txs [][]byte
		seq := map[int]uint64{0: c.Seq(c.Accs[0].Acc), 1: c.Seq(c.Accs[1].Acc)}
		for i := 0; i < 3; i++ {
			a := i % 2
			bz := c.Eth(c.Accs[a], verifkit.EthTx{Type: 2, Nonce: seq[a], Data: logInit(rng), Gas: 400_000, FeeCap: gasPrice(c)})
			seq[a]++
			txs = append(txs, bz)
			if !patient("CheckTx", func() { _, _ = c.CheckLocked(&abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType_New}, nil) }) {
				return
			}
		}
		if !patient("block", func() { c.Block(txs...) }) {
			return
		}
		var v any
		for _, m := range []string{"eth_blockNumber", "eth_newBlockFilter", "eth_newPendingTransactionFilter"} {
			if !patient(m, func() { _ = good.call(&v, m) }) {
				return
			}
		}
		if !patient("eth_uninstallFilter", func() { _ = good.call(&v, "eth_uninstallFilter", v) }) {
			return
		}
		// the honest client hears in time
		t := time.Now()
		for len(good.notes(heads)) < b+1 || len(good.notes(pend)) < 3*(b+1) {
			if time.Since(t) > patience8 {
				x.bad("unheard", "a client which reads heard of %d blocks and %d transactions where there were %d and %d, beside clients which read nothing of %s", len(good.notes(heads)), len(good.notes(pend)), b+1, 3*(b+1), names)
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	r.Count("deaf_blocks", blocks+1)
	r.Sample("%s: 5 blocks and 15 submissions beside clients which read nothing of %s", id, names)
}

// logInit is code which logs a few times.
func logInit(rng *rand.Rand) []byte {
	a := verifkit.NewAsm()
	for j := 0; j < 1+rng.Intn(4); j++ {
		k := rng.Intn(5)
		for t := 0; t < k; t++ {
			a.Push(rng.Intn(4))
		}
		a.Push(rng.Intn(40)).Push(0).Op(vm.LOG0 + vm.OpCode(k))
	}
	return a.Bytes()
}

// mine8 are the goroutines which serve clients.
func mine8() map[string]int {
	buf := make([]byte, 8<<20)
	out := map[string]int{}
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if !strings.Contains(g, "minievm/jsonrpc") && !strings.Contains(g, "minievm/indexer") {
			continue
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "minievm/jsonrpc") || strings.Contains(l, "minievm/indexer") {
				l = strings.TrimPrefix(l, "created by ")
				if i := strings.Index(l, " in goroutine"); i > 0 {
					l = l[:i]
				}
				if i := strings.LastIndex(l, "("); i > 0 && strings.HasSuffix(l, ")") {
					l = l[:i]
				}
				out[l]++
				break
			}
		}
	}
	return out
}

// x8leave has clients come and go and looks what they leave behind.
func x8leave(r *R, id string, rng *rand.Rand) {
	c := verifkit.NewChain(verifkit.Config{ChainID: fmt.Sprintf("verif-%d", 800+rng.Intn(99)), NAcc: 3, Indexer: true})
	x := &hrun{r: r, id: id}
	x.Hist = &Hist{c: c}
	n := c.NewNode(nil)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	time.Sleep(50 * time.Millisecond)
	base := mine8()
	wg.Add(1)
	go func() { // the chain goes on
		defer wg.Done()
		for b := 0; ; b++ {
			select {
			case <-stop:
				return
			default:
			}
			bz := c.Eth(c.Accs[0], verifkit.EthTx{Type: 2, Nonce: c.Seq(c.Accs[0].Acc), Data: logInit(rand.New(rand.NewSource(int64(b)))), Gas: 400_000, FeeCap: gasPrice(c)})
			_, _ = c.CheckLocked(&abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType_New}, nil)
			c.Block(bz)
		}
	}()
	for i := 0; i < 60; i++ {
		w := newWire(n, 0)
		var ids, subs []string
		for j := 0; j < 1+rng.Intn(6); j++ {
			var v string
			switch rng.Intn(6) {
			case 0:
				must(w.call(&v, "eth_subscribe", "newHeads"))
			case 1:
				must(w.call(&v, "eth_subscribe", "logs", map[string]any{}))
			case 2:
				must(w.call(&v, "eth_subscribe", "newPendingTransactions", rng.Intn(2) == 0))
			case 3:
				must(w.call(&v, "eth_newFilter", map[string]any{}))
				ids = append(ids, v)
				continue
			case 4:
				must(w.call(&v, "eth_newBlockFilter"))
				ids = append(ids, v)
				continue
			case 5:
				must(w.call(&v, "eth_newPendingTransactionFilter"))
				ids = append(ids, v)
				continue
			}
			subs = append(subs, v)
			if rng.Intn(5) == 0 {
				var l any
				_ = w.call(&l, "eth_getLogs", map[string]any{"fromBlock": "0x1", "toBlock": "latest"})
			}
		}
		r.Count("clients_left", 1)
		for _, f := range ids {
			var ok bool
			must(w.call(&ok, "eth_uninstallFilter", f))
			if !ok {
				x.bad("uninstall", "filter %s could not be uninstalled", f)
			}
		}
		if rng.Intn(4) == 0 { // reads nothing any more
			w.mu.Lock()
			time.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
			w.conn.Close()
			w.mu.Unlock()
		} else if rng.Intn(2) == 0 {
			for _, s := range subs {
				var ok bool
				must(w.call(&ok, "eth_unsubscribe", s))
			}
		} else if rng.Intn(2) == 0 { // gone in the middle of a request
			go func() {
				_, _ = w.conn.Write([]byte(`{"jsonrpc":"2.0","id":1,"method":"eth_getLogs","params":[{"fromBlock":"0x1","toBlock":"latest"}]}` + "\n"))
			}()
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		}
		w.conn.Close()
		r.Distinct(fmt.Sprintf("left %d filters %d subscriptions", len(ids), len(subs)))
	}
	close(stop)
	wg.Wait()
	var left string
	for t := time.Now(); time.Since(t) < 25*time.Second; time.Sleep(100 * time.Millisecond) {
		left = ""
		for k, v := range mine8() {
			if v > base[k] {
				left += fmt.Sprintf("%d× %s; ", v-base[k], k)
			}
		}
		if left == "" {
			break
		}
	}
	r.Eval(1)
	if left != "" {
		x.bad("left-behind", "after 60 clients had left, %d blocks: %s", c.Height, left)
	}
	r.Sample("%s: 60 clients came and went over %d blocks, nothing of theirs runs on", id, c.Height)
}
