package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"text/template"
	"time"

	"github.com/spf13/viper"
	"golang.org/x/sync/errgroup"

	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/jsonrpc"
	rpcconfig "github.com/initia-labs/minievm/jsonrpc/config"

	evmconfig "github.com/initia-labs/minievm/x/evm/config"

	"github.com/initia-labs/minievm/verifkit"
)

// X09: the servers of the JSON-RPC interface do what the configuration file says.

func init() { monitors["X09"] = monX09 }

// spaces9 are a request of every namespace there could be; the last ones the node does not have.
var spaces9 = map[string]string{"eth": "eth_chainId", "net": "net_version", "web3": "web3_clientVersion", "txpool": "txpool_status", "cosmos": "cosmos_txHashByCosmosTxHash",
	"personal": "personal_listAccounts", "debug": "debug_traceTransaction", "miner": "miner_start", "admin": "admin_nodeInfo"}

var known9 = map[string]bool{"eth": true, "net": true, "web3": true, "txpool": true, "cosmos": true}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

// served is one started pair of servers.
type served struct {
	r    *R
	id   string
	rng  *rand.Rand
	cfg  rpcconfig.JSONRPCConfig
	http *http.Client
	c    *verifkit.Chain
}

func monX09(r *R) {
	r.Rule = "distinct = (what is configured, what a client tried, how it went)"
	c := verifkit.NewChain(verifkit.Config{NAcc: 4, GasPrice: "0.15", Indexer: true})
	for i := 0; i < 7; i++ {
		c.Block()
	}
	for i := 0; i < r.N(10, 80); i++ {
		id := fmt.Sprint("server/", i)
		r.Case(id, func(rng *rand.Rand) { x9Server(r, c, id, rng) })
	}
	for i := 0; i < 4; i++ {
		id := fmt.Sprint("timeout/", i)
		r.Case(id, func(rng *rand.Rand) { x9Timeout(r, c, id, i) })
	}
}

// x9Timeout holds a connection open which sends half a request, or nothing after one: it is closed
// when the configured time is over, and not before.
func x9Timeout(r *R, c *verifkit.Chain, id string, i int) {
	s := &served{r: r, id: id, c: c}
	cfg := rpcconfig.DefaultJSONRPCConfig()
	ws := i >= 2
	cfg.Enable, cfg.EnableWS = !ws, ws
	cfg.Address, cfg.AddressWS = freePort(), freePort()
	cfg.HTTPTimeout, cfg.HTTPIdleTimeout = time.Minute, time.Second
	if i%2 == 0 {
		cfg.HTTPTimeout, cfg.HTTPIdleTimeout = cfg.HTTPIdleTimeout, cfg.HTTPTimeout
	}
	s.cfg = cfg
	node := c.NewNode(nil)
	sctx, cctx := node.Contexts()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	g, ctx := errgroup.WithContext(ctx)
	if err := jsonrpc.StartJSONRPC(ctx, g, c.App, sctx, cctx, cfg, ws); err != nil {
		return
	}
	addr := cfg.Address
	if ws {
		addr = cfg.AddressWS
	}
	hold := func(what string, body string, answered bool, limit time.Duration) {
		conn, err := net.Dial("tcp", addr)
		must(err)
		defer conn.Close()
		_, err = conn.Write([]byte(body))
		must(err)
		start := time.Now() // after what was sent, but the server may begin to count a little earlier
		in := make([]byte, 1<<16)
		if answered {
			must(conn.SetReadDeadline(time.Now().Add(20 * time.Second)))
			if _, err := conn.Read(in); err != nil {
				s.bad("timeout", "%s: no answer: %v", what, err)
				return
			}
		}
		wait := 3 * time.Second
		if limit < time.Minute {
			wait = 20 * time.Second
		}
		must(conn.SetReadDeadline(time.Now().Add(wait)))
		_, err = io.Copy(io.Discard, conn)
		took := time.Since(start)
		var ne net.Error
		open := errors.As(err, &ne) && ne.Timeout()
		r.Eval(1)
		r.Distinct(fmt.Sprintf("timeout|%v|%s|%v", ws, what, open))
		if open != (limit == time.Minute) || (!open && took < limit*8/10) {
			s.bad("timeout", "%s: open after %s: %v (limit %s)", what, took, open, limit)
		}
	}
	half := "POST / HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n"
	hold("half a header", half, false, cfg.HTTPTimeout)
	if !ws {
		if cfg.HTTPTimeout == time.Minute {
			hold("half a body", half+"\r\n{", false, cfg.HTTPTimeout)
			b := req9(1, "rpc_modules")
			hold("idle", fmt.Sprintf("POST / HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(b), b), true, cfg.HTTPIdleTimeout)
		} else {
			hold("half a body", half+"\r\n{", false, cfg.HTTPTimeout)
		}
	}
	cancel()
	_ = g.Wait()
}

func (s *served) bad(sig, f string, a ...any) {
	s.r.Violate(s.id, sig, "%+v: %s", s.cfg, fmt.Sprintf(f, a...))
}

type answer9 struct {
	ID     json.RawMessage
	Result json.RawMessage
	Error  *struct {
		Code    int
		Message string
	}
}

// post sends a body and returns the answers.
func (s *served) post(cl *http.Client, body string) (out []answer9, raw []byte, err error) {
	resp, err := cl.Post("http://"+s.cfg.Address, "application/json", strings.NewReader(body))
	if err != nil {
		return nil, nil, err
	}
	defer resp.Body.Close()
	raw, err = io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil, err
	}
	if len(raw) > 0 && raw[0] == '[' {
		err = json.Unmarshal(raw, &out)
	} else {
		out = make([]answer9, 1)
		err = json.Unmarshal(raw, &out[0])
	}
	s.r.Eval(1)
	return out, raw, err
}

func req9(id int, m string, args ...any) string {
	if args == nil {
		args = []any{}
	}
	bz, err := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": id, "method": m, "params": args})
	must(err)
	return string(bz)
}

func x9Server(r *R, c *verifkit.Chain, id string, rng *rand.Rand) {
	s := &served{r: r, id: id, rng: rng, c: c}
	cfg := rpcconfig.DefaultJSONRPCConfig()
	cfg.Enable, cfg.EnableWS, cfg.EnableUnsafeCORS = rng.Intn(6) > 0, rng.Intn(5) > 0, rng.Intn(2) == 0
	cfg.Address, cfg.AddressWS = freePort(), freePort()
	if rng.Intn(4) > 0 {
		var all []string
		for k := range spaces9 {
			all = append(all, k)
		}
		sort.Strings(all)
		cfg.APIs = nil
		for _, i := range rng.Perm(len(all))[:1+rng.Intn(len(all))] {
			cfg.APIs = append(cfg.APIs, all[i])
		}
	}
	cfg.BatchRequestLimit = 1 + rng.Intn(6)
	cfg.BatchResponseMaxSize = 40 + rng.Intn(700)
	cfg.MaxOpenConnections = rng.Intn(4)
	cfg.FeeHistoryMaxHeaders, cfg.FeeHistoryMaxBlocks = 1+rng.Intn(5), 1+rng.Intn(5)
	cfg.QueuedTransactionCap = 1 + rng.Intn(4)
	cfg.FilterTimeout = time.Duration(1+rng.Intn(100)) * time.Second
	cfg.HTTPTimeout, cfg.HTTPIdleTimeout = time.Duration(20+rng.Intn(10))*time.Second, time.Duration(30+rng.Intn(100))*time.Second
	s.cfg = cfg

	// through the file
	var file bytes.Buffer
	must(template.Must(template.New("").Parse(rpcconfig.DefaultConfigTemplate)).Execute(&file, struct{ JSONRPCConfig rpcconfig.JSONRPCConfig }{cfg}))
	v := viper.New()
	v.SetConfigType("toml")
	must(v.ReadConfig(&file))
	got := rpcconfig.GetConfig(v)
	r.Eval(1)
	if !reflect.DeepEqual(got, cfg) {
		s.bad("config", "read back from the configuration file as %+v", got)
		return
	}

	ec := evmconfig.EVMConfig{ContractSimulationGasLimit: 1 + uint64(rng.Int63()), IndexerCacheSize: 1 + rng.Intn(1000)}
	file.Reset()
	must(template.Must(template.New("").Parse(evmconfig.DefaultConfigTemplate)).Execute(&file, struct{ EVMConfig evmconfig.EVMConfig }{ec}))
	must(v.ReadConfig(&file))
	if back := evmconfig.GetConfig(v); back != ec {
		s.bad("config", "%+v is read back from the configuration file as %+v", ec, back)
	}

	node := c.NewNode(nil)
	sctx, cctx := node.Contexts()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	g, ctx := errgroup.WithContext(ctx)
	for _, ws := range []bool{false, true} {
		if err := jsonrpc.StartJSONRPC(ctx, g, c.App, sctx, cctx, got, ws); err != nil {
			if strings.Contains(err.Error(), "in use") {
				return // somebody was faster
			}
			s.bad("start", "the server (websocket %v) does not start: %v", ws, err)
			return
		}
	}
	s.http = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	enabled := map[string]bool{}
	for _, a := range cfg.APIs {
		enabled[a] = known9[a]
	}
	listens := func(addr string, want bool) {
		conn, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err == nil {
			conn.Close()
		}
		r.Eval(1)
		if (err == nil) != want {
			s.bad("listens", "there is a server at %s: %v", addr, err)
		}
	}
	listens(cfg.Address, cfg.Enable)
	listens(cfg.AddressWS, cfg.EnableWS)
	if cfg.Enable {
		s.namespaces(enabled)
		s.batches()
		if enabled["eth"] {
			s.feeHistory()
		}
		if enabled["eth"] && enabled["txpool"] {
			s.queue()
		}
		if cfg.MaxOpenConnections > 0 {
			s.connections()
		}
	}
	if cfg.EnableWS {
		s.websocket(enabled)
	}
	cancel()
	done := make(chan error, 1)
	go func() { done <- g.Wait() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		s.bad("stop", "the servers do not stop")
		return
	}
	listens(cfg.Address, false)
	listens(cfg.AddressWS, false)
	r.Count("servers", 1)
}

func (s *served) namespaces(enabled map[string]bool) {
	for ns, m := range spaces9 {
		a, raw, err := s.post(s.http, req9(1, m))
		if err != nil || len(a) != 1 {
			s.bad("http", "%s: %v %s", m, err, raw)
			continue
		}
		missing := a[0].Error != nil && a[0].Error.Code == -32601
		s.r.Distinct(fmt.Sprintf("namespace|%s|%v", ns, enabled[ns]))
		if missing == enabled[ns] {
			s.bad("namespace", "%s answers %s", m, raw)
		}
	}
	// a web page of another origin may ask for more than plain requests only where that is configured
	q, err := http.NewRequest("OPTIONS", "http://"+s.cfg.Address, nil)
	must(err)
	q.Header.Set("Origin", "http://evil.example")
	q.Header.Set("Access-Control-Request-Method", "POST")
	q.Header.Set("Access-Control-Request-Headers", "x-custom")
	if resp, err := s.http.Do(q); err != nil || (resp.Header.Get("Access-Control-Allow-Origin") != "") != s.cfg.EnableUnsafeCORS {
		s.bad("cors", "a page of another origin: %v %v", resp, err)
	} else {
		resp.Body.Close()
	}
	resp, err := s.http.Get("http://" + s.cfg.Address)
	if err != nil || resp.StatusCode == http.StatusOK {
		s.bad("http", "a GET: %v %v", resp, err)
	}
	if err == nil {
		resp.Body.Close()
	}
}

func (s *served) batches() {
	first, _, err := s.post(s.http, req9(1, "rpc_modules"))
	must(err)
	one := len(first[0].Result) // the limit counts results, and the answer which exceeds it is still given
	for _, n := range []int{1, s.cfg.BatchRequestLimit, s.cfg.BatchRequestLimit + 1, s.cfg.BatchRequestLimit + 1 + s.rng.Intn(20)} {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, req9(1, "rpc_modules"))
		}
		a, raw, err := s.post(s.http, "["+strings.Join(l, ",")+"]")
		if err != nil {
			s.bad("batch", "a batch of %d: %v %s", n, err, raw)
			continue
		}
		good, large := 0, 0
		for _, x := range a {
			switch {
			case x.Error == nil:
				good++
			case x.Error.Code == -32003:
				large++
			}
		}
		size := n * one
		kind := "whole"
		switch {
		case n > s.cfg.BatchRequestLimit:
			kind = "long"
			if good > 0 {
				s.bad("batch-limit", "of a batch of %d requests %d were answered", n, good)
			}
		case size <= s.cfg.BatchResponseMaxSize:
			if good != n {
				s.bad("batch", "of a batch of %d requests %d were answered: %s", n, good, raw)
			}
		case size-one > s.cfg.BatchResponseMaxSize:
			kind = "large"
			if good == n || large == 0 {
				s.bad("batch-size", "a batch with an answer of %d bytes was answered: %s", size, raw)
			}
		}
		s.r.Distinct("batch|" + kind)
		s.r.Count("batches_"+kind, 1)
	}
}

func (s *served) feeHistory() {
	for _, pct := range [][]float64{{}, {50}} {
		limit := s.cfg.FeeHistoryMaxHeaders
		if len(pct) > 0 {
			limit = s.cfg.FeeHistoryMaxBlocks
		}
		for _, n := range []int{1, limit, limit + 1, limit + s.rng.Intn(1000)} {
			a, raw, err := s.post(s.http, req9(1, "eth_feeHistory", hexutil.EncodeUint64(uint64(n)), "latest", pct))
			var h struct{ GasUsedRatio []float64 }
			if err != nil || a[0].Error != nil || json.Unmarshal(a[0].Result, &h) != nil || len(h.GasUsedRatio) != min(n, limit) {
				s.bad("fee-history", "fee history of %d blocks with percentiles %v: %d blocks, %v %.300s", n, pct, len(h.GasUsedRatio), err, raw)
			}
			s.r.Distinct(fmt.Sprintf("fees|%d|%v", len(pct), n > limit))
		}
	}
}

// queue sends transactions too early.
func (s *served) queue() {
	c := s.c
	a := c.Accs[s.rng.Intn(len(c.Accs))]
	n := s.cfg.QueuedTransactionCap + s.rng.Intn(4)
	for i := 0; i < n; i++ {
		to := c.Accs[0].Eth
		tx := c.SignEth(a, verifkit.EthTx{Type: 2, Nonce: c.Seq(a.Acc) + 2 + uint64(i), To: &to, Value: big.NewInt(1), Gas: 100_000, FeeCap: gasPrice(c), TipCap: gasPrice(c)})
		bz, err := tx.MarshalBinary()
		must(err)
		if x, raw, err := s.post(s.http, req9(1, "eth_sendRawTransaction", hexutil.Encode(bz))); err != nil || x[0].Error != nil {
			s.bad("queue", "an early transaction is not taken: %v %s", err, raw)
			return
		}
	}
	x, raw, err := s.post(s.http, req9(1, "txpool_status"))
	var st map[string]hexutil.Uint
	if err != nil || x[0].Error != nil || json.Unmarshal(x[0].Result, &st) != nil || int(st["queued"]) != min(n, s.cfg.QueuedTransactionCap) {
		s.bad("queue-cap", "of %d early transactions %d wait (%v %s)", n, st["queued"], err, raw)
	}
	s.r.Distinct(fmt.Sprintf("queue|%v", n > s.cfg.QueuedTransactionCap))
}

// connections are held open until no more are served.
func (s *served) connections() {
	ask := func(cl *http.Client) error {
		_, _, err := s.post(cl, req9(1, "rpc_modules"))
		return err
	}
	var held []*http.Client
	for i := 0; i < s.cfg.MaxOpenConnections; i++ {
		cl := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{}}
		if err := ask(cl); err != nil {
			s.bad("connection", "connection %d of %d is not served: %v", i+1, s.cfg.MaxOpenConnections, err)
			return
		}
		held = append(held, cl)
	}
	if err := ask(&http.Client{Timeout: 300 * time.Millisecond, Transport: &http.Transport{DisableKeepAlives: true}}); err == nil {
		s.bad("connection-limit", "one more connection than %d is served", s.cfg.MaxOpenConnections)
	}
	for i, cl := range held {
		if i > 0 {
			if err := ask(cl); err != nil {
				s.bad("connection", "a held connection is not served any more: %v", err)
			}
		}
		cl.CloseIdleConnections()
	}
	if err := ask(s.http); err != nil {
		s.bad("connection", "no connection is served after others were closed: %v", err)
	}
	s.r.Distinct("connections")
}

func (s *served) websocket(enabled map[string]bool) {
	for _, origin := range []string{"", "http://evil.example"} {
		ctx, stop := context.WithTimeout(context.Background(), 20*time.Second)
		cl, err := rpc.DialWebsocket(ctx, "ws://"+s.cfg.AddressWS, origin)
		want := origin == "" || s.cfg.EnableUnsafeCORS
		s.r.Eval(1)
		s.r.Distinct(fmt.Sprintf("ws|%s|%v", origin, want))
		if (err == nil) != want {
			s.bad("ws-origin", "a websocket of origin %q: %v", origin, err)
		}
		if err == nil {
			var m map[string]string
			err := cl.CallContext(ctx, &m, "rpc_modules")
			delete(m, "rpc")
			n := 0
			for k, on := range enabled {
				if on {
					n++
					if m[k] == "" {
						err = fmt.Errorf("%s is not there", k)
					}
				}
			}
			if err != nil || len(m) != n {
				s.bad("ws", "modules are %v: %v", m, err)
			}
			heads := make(chan map[string]any, 10)
			sub, err := cl.EthSubscribe(ctx, heads, "newHeads")
			if (err == nil) != enabled["eth"] {
				s.bad("ws-subscribe", "a subscription: %v", err)
			}
			if err == nil {
				s.c.Block()
				select {
				case <-heads:
				case <-time.After(20 * time.Second):
					s.bad("ws-subscribe", "no news of a block")
				}
				sub.Unsubscribe()
			}
			cl.Close()
		}
		stop()
	}
}
