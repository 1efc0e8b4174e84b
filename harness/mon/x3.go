package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rpc"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/initia-labs/minievm/jsonrpc/config"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["X03"] = monX03 }

// wire is a client which sees every message the node writes.
type wire struct {
	conn net.Conn
	mu   sync.Mutex
	next int
	wait map[int]chan wireMsg
	subs map[string][]json.RawMessage // notifications by subscription, in order
	slow time.Duration
	gone bool
}

type wireMsg struct {
	ID     *int
	Result json.RawMessage
	Error  *struct {
		Code    int
		Message string
	}
	Method string
	Params *struct {
		Subscription string
		Result       json.RawMessage
	}
}

func newWire(n *verifkit.Node, slow time.Duration) *wire {
	a, b := net.Pipe()
	w := &wire{conn: a, wait: map[int]chan wireMsg{}, subs: map[string][]json.RawMessage{}, slow: slow}
	go n.Server.ServeCodec(rpc.NewCodec(b), 0)
	go func() {
		d := json.NewDecoder(a)
		for {
			var m wireMsg
			if err := d.Decode(&m); err != nil {
				return
			}
			if w.slow > 0 {
				time.Sleep(w.slow)
			}
			w.mu.Lock()
			if m.Method == "eth_subscription" && m.Params != nil {
				w.subs[m.Params.Subscription] = append(w.subs[m.Params.Subscription], m.Params.Result)
			} else if m.ID != nil && w.wait[*m.ID] != nil {
				w.wait[*m.ID] <- m
				delete(w.wait, *m.ID)
			}
			w.mu.Unlock()
		}
	}()
	return w
}

func (w *wire) call(out any, method string, args ...any) error {
	if args == nil {
		args = []any{}
	}
	w.mu.Lock()
	w.next++
	id := w.next
	ch := make(chan wireMsg, 1)
	w.wait[id] = ch
	w.mu.Unlock()
	bz, err := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": id, "method": method, "params": args})
	must(err)
	_ = w.conn.SetWriteDeadline(time.Now().Add(30 * time.Second))
	if _, err := w.conn.Write(append(bz, '\n')); err != nil {
		return err
	}
	select {
	case m := <-ch:
		if m.Error != nil {
			return fmt.Errorf("%s", m.Error.Message)
		}
		return json.Unmarshal(m.Result, out)
	case <-time.After(30 * time.Second):
		return fmt.Errorf("no answer within half a minute")
	}
}

func (w *wire) notes(sub string) []json.RawMessage {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]json.RawMessage{}, w.subs[sub]...)
}

// listener is a filter or a subscription and what it has to be told.
type listener struct {
	id     string
	w      *wire
	kind   string // logs heads pending pending-full
	sub    bool
	q      *crit
	want   []string
	got    []string
	used   time.Time
	dead   bool
	deadAt int // notifications at the end
	closed time.Time
}

func (l *listener) String() string {
	if l.sub {
		return "subscription " + l.kind
	}
	return "filter " + l.kind
}

type x3 struct {
	x       *hrun
	n       *verifkit.Node
	book    *ethBook
	acc     *verifkit.Account
	wires   []*wire
	live    []*listener
	past    []*listener
	pend    []*TxMeta
	timeout time.Duration
	rng     *rand.Rand
	held    []heldAnswer
}

func monX03(r *R) {
	r.Rule = "distinct = kinds of listeners crossed with what happened while they listened: number of events, polls, blocks at once, other listeners ending, slow clients"
	r.hists("listen", 16, 300, &watch{blocks: 1, per: 4, cfg: indexedCfg, start: func(x *hrun) {
		s := &x3{x: x, book: newEthBook(), acc: x.users[len(x.users)-1], rng: x.rng}
		s.n = x.c.NewNode(func(c *config.JSONRPCConfig) {
			if x.rng.Intn(3) == 0 {
				s.timeout = 700 * time.Millisecond
				c.FilterTimeout = s.timeout
			} else {
				c.FilterTimeout = 0 // five minutes
			}
		})
		for i := 0; i < 3; i++ {
			var slow time.Duration
			if i == 2 && x.rng.Intn(2) == 0 {
				slow = time.Duration(1+x.rng.Intn(8)) * time.Millisecond
			}
			s.wires = append(s.wires, newWire(s.n, slow))
		}
		x.dirty[string(s.acc.Acc)] = true
		s.book.sync(x)
		s.book.learnAll(s.n)
		// two which stay: having told them, the node has told everybody
		s.open(&listener{w: s.wires[0], kind: "heads", sub: true, q: &crit{}})
		s.open(&listener{w: s.wires[0], kind: "pending", sub: true, q: &crit{}})
		for i := 0; i < x.r.N(30, 80); i++ {
			s.step()
		}
		s.settle(true)
		s.heldStill()
		for _, l := range s.live {
			x.r.Distinct(fmt.Sprintf("%s|%d|%v", l, min(len(l.want), 9), l.w.slow > 0))
			x.r.Count("events_"+strings.ReplaceAll(l.String(), " ", "_"), len(l.want))
		}
		for _, w := range s.wires {
			w.conn.Close()
		}
	}})
}

func (s *x3) step() {
	rng := s.rng
	if len(s.held) > 60 {
		s.heldStill()
	}
	switch rng.Intn(12) {
	case 0, 1, 2:
		s.block(1)
	case 3:
		s.block(3 + rng.Intn(8)) // one right after the other
	case 4, 5:
		s.submit()
	case 6, 7, 8:
		s.settle(false)
		s.create()
	case 9:
		s.settle(false)
		s.end()
	case 10:
		for _, l := range s.live {
			if !l.sub && rng.Intn(2) == 0 {
				s.poll(l)
			}
		}
	case 11:
		s.settle(true)
	}
	if s.timeout > 0 {
		s.keepAlive()
		if rng.Intn(12) == 0 { // polled for longer than the timeout
			for t := time.Now(); time.Since(t) < 3*s.timeout; time.Sleep(s.timeout / 7) {
				s.keepAlive()
			}
			s.x.r.Count("kept_long", 1)
		}
	}
}

// block runs blocks and notes who has to hear of them.
func (s *x3) block(n int) {
	x := s.x
	from := len(s.book.blocks)
	for i := 0; i < n; i++ {
		txs := append([]*TxMeta{}, s.pend...)
		s.pend = nil
		if i > 0 || len(txs) == 0 {
			x.seqs = map[string]uint64{}
			txs = append(txs, logFest(x, s.acc, 1+s.rng.Intn(4))...)
		}
		x.dirty[string(s.acc.Acc)] = true
		if s.rng.Intn(2) == 0 {
			txs = append(txs, x.GenBlock(3)...)
		}
		if !x.step(txs) {
			return
		}
	}
	s.book.sync(x)
	s.book.learnAll(s.n)
	for _, k := range s.book.blocks[from:] {
		for _, l := range s.live {
			switch l.kind {
			case "heads":
				l.want = append(l.want, fmt.Sprintf("block %d %s", k.height, k.hash))
			case "logs":
				for _, lg := range k.logs {
					if l.q.from != nil && *l.q.from >= 0 && k.height < *l.q.from || l.q.to != nil && *l.q.to >= 0 && k.height > *l.q.to {
						continue
					}
					if l.q.matches(lg) {
						l.want = append(l.want, logLine(lg))
					}
				}
			}
		}
	}
	x.r.Count("blocks_heard", n)
	x.r.Distinct(fmt.Sprintf("burst %d of %d listeners", n, len(s.live)))
}

func logLine(l *coretypes.Log) string {
	return fmt.Sprintf("log %d/%d/%d %s %s %s %v %x removed=%v", l.BlockNumber, l.TxIndex, l.Index, l.BlockHash, l.TxHash, l.Address, l.Topics, l.Data, l.Removed)
}

// submit puts transactions into the mempool.
func (s *x3) submit() {
	x := s.x
	x.seqs = map[string]uint64{}
	if len(s.pend) > 0 {
		x.seqs[string(s.acc.Acc)] = s.pend[len(s.pend)-1].Seqs[0] + 1
	}
	defer func() { x.seqs = map[string]uint64{} }()
	for i := 0; i < 1+s.rng.Intn(3); i++ {
		m := logFest(x, s.acc, 1)[0]
		for m.Eth.GasFeeCap().Sign() == 0 && x.gp.Sign() > 0 { // taken by a block only
			x.seqs[string(s.acc.Acc)] = m.Seqs[0]
			m = logFest(x, s.acc, 1)[0]
		}
		bad := s.rng.Intn(5) == 0
		if bad { // never gets in
			x.seqs[string(s.acc.Acc)] = m.Seqs[0]
			e := verifkit.EthTx{Type: 2, Nonce: m.Seqs[0] + 1 + uint64(s.rng.Intn(3)), To: addrp(s.acc.Eth), Gas: 200_000, FeeCap: x.gp, TipCap: x.gp}
			m.Eth = x.c.SignEth(s.acc, e)
			_, bz, err := x.c.EthToCosmos(m.Eth)
			must(err)
			m.Bytes = bz
		}
		res, err := s.n.Comet.BroadcastTxSync(nil, m.Bytes)
		must(err)
		if bad != (res.Code != 0) {
			if bad {
				x.bad("submit", "a transaction out of order was taken")
			}
			// a well-formed one refused is not ours to judge here
			x.seqs[string(s.acc.Acc)] = m.Seqs[0]
			x.r.Count("submit_refused", 1)
			return
		}
		if bad {
			continue
		}
		s.pend = append(s.pend, m)
		for _, l := range s.live {
			if l.kind == "pending" || l.kind == "pending-full" {
				l.want = append(l.want, "tx "+m.Eth.Hash().Hex())
			}
		}
		x.r.Count("submitted", 1)
	}
	// and a cosmos transaction, which nobody hears of
	if s.rng.Intn(2) == 0 {
		u := x.users[0]
		m := x.bankSend(u, x.users[1].Acc, sdk.NewCoins(verifkit.Coin("uusdc", 1)))
		delete(x.seqs, string(u.Acc))
		_, _ = s.n.Comet.BroadcastTxSync(nil, m.Bytes)
	}
}

func (s *x3) create() {
	rng := s.rng
	if len(s.live) > 14 {
		return
	}
	l := &listener{w: s.wires[rng.Intn(len(s.wires))], kind: []string{"logs", "logs", "heads", "pending", "pending-full"}[rng.Intn(5)], sub: rng.Intn(2) == 0, q: &crit{}}
	p := &logPool{s.book, rng}
	if l.kind == "logs" {
		if rng.Intn(3) > 0 {
			p.what(l.q)
			if rng.Intn(2) == 0 { // wide enough to see something
				l.q.addrs = nil
			}
		}
		h := s.x.c.Height
		at := func(d int) *int64 { v := max(0, h-2+int64(rng.Intn(d))); return &v }
		latest := int64(-1)
		switch rng.Intn(5) {
		case 0:
			l.q.from = at(6)
			if rng.Intn(2) == 0 {
				l.q.to = &latest
			}
		case 1:
			l.q.from = at(4)
			v := *l.q.from + int64(rng.Intn(6))
			l.q.to = &v
		case 2:
			l.q.from, l.q.to = &latest, &latest
		}
	}
	s.open(l)
}

func (s *x3) open(l *listener) {
	rng := s.rng
	var err error
	l.used = time.Now()
	switch {
	case l.sub && l.kind == "logs":
		err = l.w.call(&l.id, "eth_subscribe", "logs", l.q.args(rng))
	case l.sub && l.kind == "heads":
		err = l.w.call(&l.id, "eth_subscribe", "newHeads")
	case l.sub:
		args := []any{"newPendingTransactions", l.kind == "pending-full"}
		if l.kind == "pending" && rng.Intn(2) == 0 {
			args = args[:1]
		}
		err = l.w.call(&l.id, "eth_subscribe", args...)
	case l.kind == "logs":
		err = l.w.call(&l.id, "eth_newFilter", l.q.args(rng))
	case l.kind == "heads":
		err = l.w.call(&l.id, "eth_newBlockFilter")
	default:
		args := []any{l.kind == "pending-full"}
		if l.kind == "pending" && rng.Intn(2) == 0 {
			args = nil
		}
		err = l.w.call(&l.id, "eth_newPendingTransactionFilter", args...)
	}
	s.x.r.Eval(1)
	if err != nil {
		s.x.bad("create", "%s %v: %v", l, l.q.args(rng), err)
		return
	}
	for _, o := range append(append([]*listener{}, s.live...), s.past...) {
		if o.id == l.id {
			s.x.bad("same-id", "%s and %s share the id %s", l, o, l.id)
		}
	}
	s.live = append(s.live, l)
	s.x.r.Count("created_"+strings.ReplaceAll(l.String(), " ", "_"), 1)
}

// end closes one listener.
func (s *x3) end() {
	if len(s.live) < 3 {
		return
	}
	i := 2 + s.rng.Intn(len(s.live)-2)
	l := s.live[i]
	var ok bool
	var err error
	by := l.w
	if l.sub {
		if s.rng.Intn(3) == 0 && s.wires[2] == l.w { // the client just goes away
			l.w.conn.Close()
			var left []*listener
			for _, o := range s.live {
				if o.w != l.w || !o.sub {
					left = append(left, o)
					if o.w == l.w {
						o.w = s.wires[0]
					}
				}
			}
			s.live = left
			s.wires[2] = newWire(s.n, 0)
			s.x.r.Count("clients_gone", 1)
			return
		}
		err = by.call(&ok, "eth_unsubscribe", l.id)
	} else {
		by = s.wires[s.rng.Intn(3)]
		err = by.call(&ok, "eth_uninstallFilter", l.id)
	}
	s.x.r.Eval(1)
	if err != nil || !ok {
		s.x.bad("end", "%s cannot be ended: %v %v", l, ok, err)
		return
	}
	l.dead = true
	if l.sub {
		time.Sleep(20 * time.Millisecond) // an event under way may still come
		l.closed = time.Now()
		l.deadAt = len(l.w.notes(l.id))
	} else {
		var raw json.RawMessage
		if err := by.call(&raw, "eth_getFilterChanges", l.id); err == nil {
			s.x.bad("ended", "an uninstalled %s still answers %s", l, raw)
		}
		if err := by.call(&ok, "eth_uninstallFilter", l.id); err != nil || ok {
			s.x.bad("ended", "an uninstalled %s can be uninstalled again: %v", l, err)
		}
	}
	s.live = append(s.live[:i:i], s.live[i+1:]...)
	s.past = append(s.past, l)
	s.x.r.Count("ended_"+strings.ReplaceAll(l.String(), " ", "_"), 1)
}

// parse turns what the node told into lines to compare.
func (s *x3) parse(l *listener, raw json.RawMessage) string {
	switch {
	case l.kind == "logs":
		var g coretypes.Log
		if err := json.Unmarshal(raw, &g); err != nil {
			return "unreadable " + string(raw)
		}
		return logLine(&g)
	case l.kind == "heads" && l.sub:
		var h struct {
			Number *hexutil.Big
			Hash   common.Hash
		}
		if err := json.Unmarshal(raw, &h); err != nil || h.Number == nil {
			return "unreadable " + string(raw)
		}
		return fmt.Sprintf("block %s %s", h.Number.ToInt(), h.Hash)
	case l.kind == "heads":
		var h common.Hash
		_ = json.Unmarshal(raw, &h)
		for _, k := range s.book.blocks {
			if k.hash == h {
				return fmt.Sprintf("block %d %s", k.height, h)
			}
		}
		return "unknown block " + h.Hex()
	case l.kind == "pending-full":
		var t coretypes.Transaction
		if err := json.Unmarshal(raw, &t); err != nil {
			return "unreadable " + string(raw)
		}
		return "tx " + t.Hash().Hex()
	}
	var h common.Hash
	_ = json.Unmarshal(raw, &h)
	return "tx " + h.Hex()
}

// poll asks a filter once, sometimes from two sides at a time.
func (s *x3) poll(l *listener) bool {
	ask := func(w *wire) ([]string, error) {
		var raws []json.RawMessage
		if err := w.call(&raws, "eth_getFilterChanges", l.id); err != nil {
			return nil, err
		}
		var out []string
		for _, r := range raws {
			out = append(out, s.parse(l, r))
		}
		return out, nil
	}
	t := time.Now()
	last := l.used
	var a, b []string
	var err, err2 error
	if s.rng.Intn(6) == 0 {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); b, err2 = ask(s.wires[1]) }()
		a, err = ask(s.wires[0])
		wg.Wait()
		if err == nil {
			err = err2
		}
		if len(b) > 0 && (len(a) == 0 || s.before(l, b[0], a[0])) {
			a, b = b, a
		}
		s.x.r.Count("polls_at_once", 1)
	} else {
		if s.rng.Intn(3) > 0 {
			a, err = s.hold(l)
		} else {
			a, err = ask(s.wires[s.rng.Intn(2)])
		}
	}
	s.x.r.Eval(1)
	s.x.r.Count("polls", 1)
	if err != nil {
		if s.timeout == 0 || time.Since(last) < s.timeout {
			s.x.bad("dropped", "%s used %v ago: %v", l, time.Since(last).Round(time.Millisecond), err)
		}
		return false
	}
	l.used = t
	l.got = append(append(l.got, a...), b...)
	return true
}

// hold polls as a slow server would: what the node answers is written to the client later, and has
// to be what it was.
func (s *x3) hold(l *listener) ([]string, error) {
	v, err := s.n.Filters.GetFilterChanges(rpc.ID(l.id))
	if err != nil {
		return nil, err
	}
	bz, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	var raws []json.RawMessage
	if err := json.Unmarshal(bz, &raws); err != nil {
		return nil, err
	}
	var out []string
	for _, r := range raws {
		out = append(out, s.parse(l, r))
	}
	if len(raws) > 0 {
		s.held = append(s.held, heldAnswer{l.String(), v, string(bz)})
	}
	return out, nil
}

func (s *x3) heldStill() {
	for _, h := range s.held {
		bz, err := json.Marshal(h.v)
		s.x.r.Eval(1)
		if err != nil || string(bz) != h.was {
			s.x.bad("answer-changed", "what a poll of %s was answered, not yet written to its client, changed when later blocks came: %s became %s (%v)", h.of, h.was, bz, err)
		}
	}
	s.x.r.Count("answers_held", len(s.held))
	s.held = nil
}

type heldAnswer struct {
	of  string
	v   any
	was string
}

// before tells which of two things l has to be told first.
func (s *x3) before(l *listener, a, b string) bool {
	for _, w := range l.want[min(len(l.got), len(l.want)):] {
		if w == a {
			return true
		}
		if w == b {
			return false
		}
	}
	return false
}

// keepAlive uses the filters often enough, in one way or another.
func (s *x3) keepAlive() {
	for _, l := range s.live {
		if l.sub {
			continue
		}
		if l.kind == "logs" && s.rng.Intn(3) > 0 {
			var raws []json.RawMessage // does not count as a poll
			_ = s.wires[0].call(&raws, "eth_getFilterLogs", l.id)
		}
		s.poll(l)
	}
}

// compare judges what l was told so far.
func (s *x3) compare(l *listener, got []string, all bool) bool {
	for i, g := range got {
		if i >= len(l.want) || l.want[i] != g {
			what := "never happened for it"
			sig := "foreign"
			for j, w := range l.want {
				if w == g {
					what = fmt.Sprintf("is event %d of its %d", j, len(l.want))
					sig = "order"
					if j < i {
						sig = "twice"
					}
				}
			}
			exp := "nothing"
			if i < len(l.want) {
				exp = l.want[i]
			}
			s.x.bad(sig, "%s (%v): event %d told is %q, which %s; next is %q", l, l.q.args(rand.New(rand.NewSource(1))), i, g, what, exp)
			return false
		}
	}
	if all && len(got) < len(l.want) {
		s.x.bad("lost", "%s (%v): told %d of %d events; next is %q", l, l.q.args(rand.New(rand.NewSource(1))), len(got), len(l.want), l.want[len(got)])
		return false
	}
	return true
}

// settle waits until everybody heard everything (or it is clear that they never will).
func (s *x3) settle(judge bool) {
	deadline := time.Now().Add(20 * time.Second)
	bad := map[*listener]bool{}
	for {
		missing := 0
		for _, l := range s.live {
			if bad[l] {
				continue
			}
			if l.sub {
				var got []string
				for _, raw := range l.w.notes(l.id) {
					got = append(got, s.parse(l, raw))
				}
				l.got = got
			} else if len(l.got) < len(l.want) || judge {
				if !s.poll(l) {
					bad[l] = true
					continue
				}
			}
			s.x.r.Eval(1)
			if !s.compare(l, l.got, false) {
				bad[l] = true
				continue
			}
			if len(l.got) < len(l.want) {
				missing++
			}
		}
		if missing == 0 {
			break
		}
		if time.Now().After(deadline) {
			for _, l := range s.live {
				if !bad[l] {
					bad[l] = !s.compare(l, l.got, true)
				}
			}
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if judge {
		for _, l := range s.past {
			if l.sub && !l.closed.IsZero() {
				n := len(l.w.notes(l.id))
				if time.Since(l.closed) < 500*time.Millisecond { // its goroutine may not have noticed
					l.deadAt = n
				}
				if n != l.deadAt {
					s.x.bad("ended", "an ended %s was told %d more events", l, n-l.deadAt)
					l.deadAt = n
				}
			}
		}
	}
	var left []*listener
	for _, l := range s.live {
		if !bad[l] {
			left = append(left, l)
		}
	}
	s.live = left
}
