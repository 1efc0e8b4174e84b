package main

import (
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	cmtcore "github.com/cometbft/cometbft/rpc/core/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	"github.com/initia-labs/minievm/jsonrpc/config"

	"github.com/initia-labs/minievm/verifkit"
)

func init() { monitors["X07"] = monX07 }

// x7 drives the submission of raw transactions to a node.
type x7 struct {
	r    *R
	id   string
	rng  *rand.Rand
	c    *verifkit.Chain
	n    *verifkit.Node
	accs []*verifkit.Account
	gp   *big.Int
	// wait is what the node has to keep, by sender and nonce
	wait map[common.Address]map[uint64]*x7tx
	ids  map[string]*x7tx // by encoded cosmos tx
	sent int
	// full makes the mempool refuse that many transactions
	full int
	// late are senders of which a transaction became due without a submission to this node
	late map[common.Address]string
	n0   int
	hist []string
}

type x7tx struct {
	from  *verifkit.Account
	nonce uint64
	hash  common.Hash
	raw   []byte
	enc   []byte
	poor  bool // its fee does not suffice
	label string
}

func newX7(r *R, id string, rng *rand.Rand, nacc int) *x7 {
	c := verifkit.NewChain(verifkit.Config{NAcc: nacc, GasPrice: "150", Indexer: true})
	c.Block()
	s := &x7{r: r, id: id, rng: rng, c: c, wait: map[common.Address]map[uint64]*x7tx{}, ids: map[string]*x7tx{}, late: map[common.Address]string{}, gp: gasPrice(c)}
	s.n = c.NewNode(func(cfg *config.JSONRPCConfig) {})
	s.accs = c.Accs[:nacc]
	for _, a := range s.accs {
		s.wait[a.Eth] = map[uint64]*x7tx{}
	}
	return s
}

func (s *x7) bad(sig, f string, a ...any) {
	h := s.hist
	if len(h) > 14 {
		h = h[len(h)-14:]
	}
	s.r.Violate(s.id, sig, "%s\nbefore: %s", fmt.Sprintf(f, a...), strings.Join(h, " | "))
}

func (s *x7) say(f string, a ...any) { s.hist = append(s.hist, fmt.Sprintf(f, a...)) }

// due is the nonce the mempool expects of the account.
func (s *x7) due(a *verifkit.Account) uint64 {
	acc := s.c.App.AccountKeeper.GetAccount(s.c.App.GetContextForCheckTx(nil), a.Acc)
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

// tx signs one; poor ones are refused by the mempool for their fee.
func (s *x7) tx(a *verifkit.Account, nonce uint64, poor bool) *x7tx {
	s.n0++
	to := common.BigToAddress(big.NewInt(int64(0x70000 + s.n0)))
	fee := new(big.Int).Set(s.gp)
	if poor {
		fee.Div(fee, big.NewInt(int64(2+s.rng.Intn(50))))
	} else if s.rng.Intn(2) == 0 {
		fee.Mul(fee, big.NewInt(int64(1+s.rng.Intn(3))))
	}
	t := s.c.SignEth(a, verifkit.EthTx{Type: []uint8{0, 1, 2}[s.rng.Intn(3)], Nonce: nonce, To: &to, Value: big.NewInt(int64(s.n0)), Gas: 1_000_000 + uint64(s.rng.Intn(500_000)), FeeCap: fee})
	raw, err := t.MarshalBinary()
	must(err)
	_, enc, err := s.c.EthToCosmos(t)
	must(err)
	m := &x7tx{from: a, nonce: nonce, hash: t.Hash(), raw: raw, enc: enc, poor: poor}
	m.label = fmt.Sprintf("%s:%d", a.Eth.Hex()[2:6], nonce)
	if poor {
		m.label += "(poor)"
	}
	s.ids[string(enc)] = m
	return m
}

// news are the transactions the mempool saw since the last call.
func (s *x7) news() []verifkit.Sent {
	all := s.n.Comet.AllSent()
	out := all[s.sent:]
	s.sent = len(all)
	return out
}

func (s *x7) name(tx []byte) string {
	if m := s.ids[string(tx)]; m != nil {
		return m.label
	}
	return "?"
}

// submit hands one transaction to the node and judges what came of it.
func (s *x7) submit(t *x7tx) {
	r := s.r
	a := t.from
	w := s.wait[a.Eth]
	others := s.queued()
	seq := s.due(a)
	s.news()
	full := s.full
	var got common.Hash
	err := s.n.Client.Call(&got, "eth_sendRawTransaction", hexutil.Bytes(t.raw))
	s.say("submit %s due %d full %d -> %v", t.label, seq, full, err)
	news := s.news()
	r.Eval(1)
	if err == nil && got != t.hash {
		s.bad("hash", "eth_sendRawTransaction of %s answered hash %s, not %s", t.label, got, t.hash)
	}
	if t.nonce < seq {
		r.Distinct("stale")
		r.Count("stale", 1)
		if err == nil {
			s.bad("stale-accepted", "a transaction with nonce %d was accepted while %d is next", t.nonce, seq)
		}
		if len(news) != 0 {
			s.bad("stale-sent", "submitting a stale transaction sent %d to the mempool (%s)", len(news), s.name(news[0].Tx))
		}
		s.sameQueue(others, "after a stale submission")
		return
	}
	_, replaces := w[t.nonce]
	w[t.nonce] = t
	// what must be sent: consecutive from seq on, until one is missing or refused
	next, stop := seq, ""
	i := 0
	var wantErr bool
	for {
		e := w[next]
		if e == nil {
			break
		}
		if full > 0 {
			full--
			stop = "full"
			wantErr = e == t
			if e == t {
				delete(w, next) // its sender was told
			}
			break
		}
		if i >= len(news) {
			s.bad("not-sent", "%s is next of its sender (nonce %d due before submitting %s) but was not sent; sent: %s; error %v", e.label, seq, t.label, s.names(news), err)
			return
		}
		if string(news[i].Tx) != string(e.enc) {
			s.bad("wrong-order", "the mempool was sent %s where %s was due", s.name(news[i].Tx), e.label)
			return
		}
		delete(w, next)
		if e.poor != (news[i].Code != 0) {
			s.bad("verdict", "%s got code %d (%s)", e.label, news[i].Code, news[i].Log)
		}
		i++
		if news[i-1].Code != 0 {
			stop = "refused"
			wantErr = e == t
			break
		}
		next++
	}
	if i < len(news) {
		s.bad("sent-too-much", "submitting %s sent %s, %d expected", t.label, s.names(news), i)
		return
	}
	if wantErr && err == nil {
		s.bad("refusal-hidden", "%s was refused by the mempool but its submission answered %s", t.label, got)
	}
	if !wantErr && err != nil {
		s.bad("error-for-another", "submitting %s failed with %q though nothing was wrong with it (sent: %s, %s)", t.label, err, s.names(news), stop)
	}
	r.Distinct(fmt.Sprintf("ahead%d sent%d stop=%s replaces=%v waiting%d", min(int(t.nonce-seq), 3), min(i, 5), stop, replaces, min(len(w), 4)))
	r.Count("submitted", 1)
	r.Count("sent", i)
	if i > 1 {
		r.Count("gaps_closed", 1)
	}
	if s.c.HaltErr != nil {
		panic(harnessPanic{s.c.HaltErr.Error()})
	}
	delete(s.late, a.Eth)
	if s.due(a) != next {
		s.bad("pending-nonce", "after sending %s the mempool expects nonce %d, not %d", s.names(news), s.due(a), next)
	}
	s.sameQueue(s.queued(), "after submitting "+t.label)
	if s.rng.Intn(4) == 0 {
		s.pool()
	}
}

// refuse is a mempool without room.
func (s *x7) refuse(tx []byte) (*cmtcore.ResultBroadcastTx, error, bool) {
	if s.full <= 0 {
		return nil, nil, false
	}
	s.full--
	return nil, errors.New("mempool is full"), true
}

func (s *x7) names(l []verifkit.Sent) string {
	var o []string
	for _, x := range l {
		o = append(o, fmt.Sprintf("%s=%d", s.name(x.Tx), x.Code))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func (s *x7) labels(l [][]byte) (o []string) {
	for _, x := range l {
		o = append(o, s.name(x))
	}
	return
}

// queued is what the node should tell as waiting: the hash by sender and nonce.
func (s *x7) queued() map[string]common.Hash {
	out := map[string]common.Hash{}
	for a, w := range s.wait {
		for n, t := range w {
			out[fmt.Sprintf("%s/%d", a.Hex(), n)] = t.hash
		}
	}
	return out
}

type x7pool map[string]map[string]map[string]struct {
	Hash  common.Hash
	From  common.Address
	Nonce hexutil.Uint64
}

// sameQueue compares the waiting transactions the node tells. Those overtaken by
// other transactions of the sender may have been thrown away.
func (s *x7) sameQueue(want map[string]common.Hash, when string) {
	var p x7pool
	must(s.n.Client.Call(&p, "txpool_content"))
	got := map[string]common.Hash{}
	for a, m := range p["queued"] {
		for n, t := range m {
			got[a+"/"+n] = t.Hash
			if t.From.Hex() != a || fmt.Sprint(uint64(t.Nonce)) != n {
				s.bad("queue-listing", "txpool_content lists %s/%d under %s/%s", t.From.Hex(), uint64(t.Nonce), a, n)
			}
		}
	}
	s.r.Eval(1)
	for k, h := range want {
		if got[k] == h {
			continue
		}
		var a string
		var n uint64
		_, _ = fmt.Sscanf(strings.Replace(k, "/", " ", 1), "%s %d", &a, &n)
		stale := false
		for _, acc := range s.accs {
			if acc.Eth.Hex() == a && n < s.due(acc) {
				stale = true
				delete(s.wait[acc.Eth], n)
			}
		}
		if !stale {
			s.bad("waiting-lost", "%s: the transaction %s with nonce %d waits, the node tells %v", when, h, n, got[k])
		}
	}
	for k, h := range got {
		if want[k] != h {
			s.bad("waiting-unknown", "%s: the node tells %s waiting at %s, which is %s", when, h, k, want[k])
		}
	}
}

// pool compares what the node tells about its mempool.
func (s *x7) pool() {
	var p x7pool
	must(s.n.Client.Call(&p, "txpool_content"))
	want := map[string]common.Hash{}
	all := s.n.Comet.Pool()
	for _, tx := range all {
		if m := s.ids[string(tx)]; m != nil {
			want[fmt.Sprintf("%s/%d", m.from.Eth.Hex(), m.nonce)] = m.hash
		}
	}
	got := map[string]common.Hash{}
	for a, m := range p["pending"] {
		for n, t := range m {
			got[a+"/"+n] = t.Hash
		}
	}
	if len(all) <= 100 && fmt.Sprint(want) != fmt.Sprint(got) {
		s.bad("pending-listing", "txpool_content tells pending %v, the mempool holds %v", got, want)
	}
	// the same by account, and in short
	var short map[string]map[string]map[string]string
	must(s.n.Client.Call(&short, "txpool_inspect"))
	for _, where := range []string{"pending", "queued"} {
		if len(short[where]) != len(p[where]) {
			s.bad("inspect", "txpool_inspect tells %d accounts %s, txpool_content %d", len(short[where]), where, len(p[where]))
		}
		for _, acc := range s.accs {
			var from map[string]map[string]struct{ Hash common.Hash }
			must(s.n.Client.Call(&from, "txpool_contentFrom", acc.Eth))
			a := acc.Eth.Hex()
			if len(from[where]) != len(p[where][a]) || len(short[where][a]) != len(p[where][a]) {
				s.bad("content-from", "txpool_contentFrom tells %v %s of %s, txpool_content %v, txpool_inspect %v", from[where], where, a, p[where][a], short[where][a])
				continue
			}
			for n, t := range p[where][a] {
				if from[where][n].Hash != t.Hash || short[where][a][n] == "" {
					s.bad("content-from", "%s %s/%s is %s to txpool_content, %s to txpool_contentFrom and %q to txpool_inspect", where, a, n, t.Hash, from[where][n].Hash, short[where][a][n])
				}
			}
		}
	}
	var st map[string]hexutil.Uint
	must(s.n.Client.Call(&st, "txpool_status"))
	nq := 0
	for _, w := range s.wait {
		nq += len(w)
	}
	if int(st["pending"]) != len(all) || int(st["queued"]) != nq {
		s.bad("status", "txpool_status tells %d pending and %d queued of %d and %d", st["pending"], st["queued"], len(all), nq)
	}
	s.r.Eval(2)
}

// block puts the first k transactions of the mempool into a block.
func (s *x7) block(k int, between func()) {
	p := s.n.Comet.Pool()
	if k > len(p) {
		k = len(p)
	}
	s.say("block of %d", k)
	res := s.c.Finalize(p[:k]...)
	if res == nil {
		panic(harnessPanic{s.c.HaltErr.Error()})
	}
	for i, t := range res.TxResults {
		if m := s.ids[string(p[i])]; m != nil && t.Code != 0 {
			s.bad("block-refusal", "%s of the mempool failed in a block: code %d %s", m.label, t.Code, t.Log)
		}
	}
	s.c.Committed = between
	s.c.Commit()
	s.c.Committed = nil
	for _, d := range s.n.Comet.Dropped {
		s.bad("dropped", "%s was in the mempool and failed when checked again after a block of %s: code %d %s", s.name(d.Tx), s.labels(p[:k]), d.Code, d.Log)
	}
	s.n.Comet.Dropped = nil
	s.r.Count("blocks", 1)
	s.r.Count("in_blocks", k)
}

// cosmos sends a cosmos transaction of the account past the JSON-RPC interface.
func (s *x7) cosmos(a *verifkit.Account) {
	tx := s.c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(a.Acc, s.accs[0].Acc, sdk.NewCoins(verifkit.Coin(verifkit.FeeDenom, 1)))}, Signers: []*verifkit.Account{a}, Seqs: []uint64{s.due(a)}, Gas: 1_000_000, Fee: anyFee(s.c, 1_000_000)})
	full := s.full
	s.full = 0
	res, err := s.n.Comet.BroadcastTxSync(context.Background(), tx)
	s.full = full
	must(err)
	if res.Code != 0 {
		panic(harnessPanic{"cosmos tx refused: " + res.Log})
	}
	s.say("cosmos tx of %s", a.Eth.Hex()[2:6])
	s.lateness(a, "gap-closed-elsewhere")
}

// lateness notes that the next transaction of the account waits and nothing sends it.
func (s *x7) lateness(a *verifkit.Account, why string) {
	if s.wait[a.Eth][s.due(a)] != nil {
		s.late[a.Eth] = why
	}
}

// settle: at the end nothing that is due may wait.
func (s *x7) settle() {
	for _, a := range s.accs {
		s.r.Eval(1)
		t := s.wait[a.Eth][s.due(a)]
		if t == nil {
			continue
		}
		why := s.late[a.Eth]
		if why == "" {
			s.bad("due-but-waiting", "%s is due and waits still", t.label)
			continue
		}
		s.bad(why, "%s is due and waits still: nothing sends it until its sender submits another transaction to this node", t.label)
	}
}

func monX07(r *R) {
	r.Rule = "distinct = (how far ahead of the expected nonce, how many were sent, why the sending stopped, whether it replaced a waiting one, how many wait)"
	r.ParCase("queue", r.N(24, 600), func(id string, rng *rand.Rand) {
		s := newX7(r, id, rng, 3+rng.Intn(3))
		s.n.Comet.Broadcast = s.refuse
		var past []*x7tx
		for i, n := 0, r.N(60, 200); i < n; i++ {
			a := s.accs[rng.Intn(len(s.accs))]
			switch k := rng.Intn(24); {
			case k < 13:
				seq := s.due(a)
				off := []int{0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, -1, -2}[rng.Intn(13)]
				if off < 0 && int(seq)+off < 0 {
					off = 0
				}
				t := s.tx(a, uint64(int(seq)+off), rng.Intn(9) == 0)
				past = append(past, t)
				s.submit(t)
			case k < 15: // close every gap of one sender, from behind
				seq := s.due(a)
				for j := 2 + rng.Intn(5); j >= 0; j-- {
					t := s.tx(a, seq+uint64(j), rng.Intn(14) == 0)
					past = append(past, t)
					s.submit(t)
				}
			case k < 18 && len(past) > 0: // the same again
				t := past[rng.Intn(len(past))]
				if t.nonce < s.due(t.from) || s.wait[t.from.Eth][t.nonce] == t {
					s.submit(t)
					r.Count("duplicates", 1)
				}
			case k < 20:
				s.block(rng.Intn(12), nil)
			case k == 20:
				s.full = 1 + rng.Intn(2)
			case k == 21:
				s.garbage(a)
			case k == 22:
				if s.wait[a.Eth][s.due(a)+1] == nil && s.wait[a.Eth][s.due(a)] == nil {
					s.cosmos(a)
				}
			case k == 23:
				s.pool()
			}
		}
		s.full = 0
		// a due transaction that the full mempool refused goes out with the next one of its sender
		for _, a := range s.accs {
			far := s.due(a) + 40
			s.submit(s.tx(a, far, false))
		}
		s.settle()
		s.block(len(s.n.Comet.Pool()), nil)
		if n := len(s.n.Comet.Pool()); n != 0 {
			s.bad("pool-left", "%d transactions stay in the mempool after a block of all of it", n)
		}
		s.pool()
		s.r.Sample("%s: %s", id, strings.Join(s.hist[:min(6, len(s.hist))], " | "))
	})
	r.ParCase("parallel", r.N(10, 200), func(id string, rng *rand.Rand) { parallelX07(r, id, rng) })
	// known: transactions that become due without a submission to the node
	r.Case("elsewhere/0", func(rng *rand.Rand) {
		s := newX7(r, "elsewhere/0", rng, 2)
		a := s.accs[1]
		s.submit(s.tx(a, s.due(a)+1, false))
		s.cosmos(a)
		s.block(5, nil)
		s.settle()
		s.submit(s.tx(a, s.due(a)+1, false))
		s.settle()
	})
	r.Case("recheck/0", func(rng *rand.Rand) {
		s := newX7(r, "recheck/0", rng, 2)
		a := s.accs[1]
		for i := 0; i < 3; i++ {
			s.submit(s.tx(a, s.due(a), false))
		}
		n := s.due(a)
		t := s.tx(a, n, false)
		s.block(1, func() {
			if s.due(a) >= n {
				return
			}
			s.submit(t)
		})
		s.lateness(a, "submitted-before-recheck")
		s.settle()
		s.submit(s.tx(a, s.due(a)+1, false))
		s.settle()
	})
}

// garbage is refused and changes nothing.
func (s *x7) garbage(a *verifkit.Account) {
	seq := s.due(a)
	t := s.tx(a, seq, false)
	var raw []byte
	kind := s.rng.Intn(4)
	switch kind {
	case 0:
		raw = t.raw[:s.rng.Intn(len(t.raw))]
	case 1: // of another chain
		x := s.c.SignEth(a, verifkit.EthTx{Type: 2, Nonce: seq, To: addrp(a.Eth), Gas: 1_000_000, FeeCap: s.gp, ChainID: big.NewInt(1)})
		raw, _ = x.MarshalBinary()
	case 2: // not protected
		x := s.c.SignEth(a, verifkit.EthTx{Type: 0, Nonce: seq, To: addrp(a.Eth), Gas: 1_000_000, FeeCap: s.gp, Unprot: true})
		raw, _ = x.MarshalBinary()
	case 3:
		raw = append(append([]byte{}, t.raw...), 0)
	}
	before := s.queued()
	s.news()
	var got common.Hash
	err := s.n.Client.Call(&got, "eth_sendRawTransaction", hexutil.Bytes(raw))
	s.r.Eval(1)
	s.r.Count("garbage", 1)
	s.r.Distinct(fmt.Sprintf("garbage %d", kind))
	if err == nil {
		s.bad("garbage-accepted", "malformed transaction (kind %d) %x was accepted as %s", kind, raw, got)
	}
	if n := s.news(); len(n) != 0 {
		s.bad("garbage-sent", "malformed transaction (kind %d) made the node send %s", kind, s.names(n))
	}
	s.sameQueue(before, "after a malformed submission")
	if s.due(a) != seq {
		s.bad("garbage-nonce", "malformed transaction moved the nonce of its sender")
	}
}

// parallelX07: several senders submit permuted sequences from many clients at once, beside
// blocks; the mempool takes its time.
func parallelX07(r *R, id string, rng *rand.Rand) {
	s := newX7(r, id, rng, 4)
	per := 6 + rng.Intn(10)
	slow := rng.Intn(3)
	var jit sync.Mutex
	jrng := rand.New(rand.NewSource(rng.Int63()))
	jitter := func(us int) {
		if us == 0 {
			return
		}
		jit.Lock()
		d := jrng.Intn(us)
		jit.Unlock()
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	s.n.Comet.Before = func() { jitter(slow * 500) }
	dup := map[*x7tx]int{}
	var all []*x7tx
	first := map[common.Address]uint64{}
	for _, a := range s.accs {
		first[a.Eth] = s.due(a)
		for i := 0; i < per; i++ {
			t := s.tx(a, s.due(a)+uint64(i), false)
			all = append(all, t)
			if rng.Intn(8) == 0 {
				all = append(all, t)
				dup[t]++
			}
		}
	}
	rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	workers := 2 + rng.Intn(10)
	ch := make(chan *x7tx)
	var wg sync.WaitGroup
	var mu sync.Mutex
	errs := map[*x7tx][]error{}
	oks := map[*x7tx]int{}
	// submissions never fall between a block and the recheck of the mempool
	var gate sync.RWMutex
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				jitter(300)
				var got common.Hash
				gate.RLock()
				err := s.n.Client.Call(&got, "eth_sendRawTransaction", hexutil.Bytes(t.raw))
				gate.RUnlock()
				mu.Lock()
				if err != nil {
					errs[t] = append(errs[t], err)
				} else {
					oks[t]++
					if got != t.hash {
						s.bad("hash", "eth_sendRawTransaction answered %s, not %s", got, t.hash)
					}
				}
				mu.Unlock()
			}
		}()
	}
	stop := make(chan struct{})
	done := make(chan struct{})
	blocks := rng.Intn(2) == 0
	go func() {
		defer close(done)
		for blocks {
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
			}
			gate.Lock()
			s.block(4, nil)
			gate.Unlock()
		}
	}()
	fin := make(chan struct{})
	go func() {
		for _, t := range all {
			ch <- t
		}
		close(ch)
		wg.Wait()
		close(fin)
	}()
	select {
	case <-fin:
	case <-time.After(60 * time.Second):
		s.bad("stuck", "%d clients submitting %d transactions of %d senders did not finish within a minute", workers, len(all), len(s.accs))
		return
	}
	close(stop)
	<-done
	// every transaction reached the mempool once, in order
	at := map[common.Address]uint64{}
	for k, v := range first {
		at[k] = v
	}
	order := []string{}
	for _, x := range s.news() {
		m := s.ids[string(x.Tx)]
		if m == nil {
			s.bad("unknown-sent", "the mempool was sent an unknown transaction %x", x.Tx)
			continue
		}
		order = append(order, m.label)
		if x.Code != 0 {
			s.bad("parallel-refused", "%s was refused: %d %s (order %v)", m.label, x.Code, x.Log, order)
		}
		if m.nonce != at[m.from.Eth] {
			s.bad("parallel-order", "%s was sent when %d was due (order %v)", m.label, at[m.from.Eth], order)
		}
		at[m.from.Eth] = m.nonce + 1
	}
	for a, f := range first {
		if at[a] != f+uint64(per) {
			s.bad("parallel-lost", "%d of %d transactions of %s reached the mempool (order %v)", at[a]-f, per, a, order)
		}
	}
	for _, t := range all {
		if oks[t] == 0 {
			s.bad("parallel-error", "no submission of %s succeeded: %v", t.label, errs[t])
		}
		for _, e := range errs[t] {
			if dup[t] == 0 {
				s.bad("parallel-error", "the only submission of %s failed: %v", t.label, e)
			}
			if !strings.Contains(e.Error(), "nonce too low") {
				s.bad("parallel-dup-error", "second submission of %s failed with %v", t.label, e)
			}
		}
	}
	s.sameQueue(map[string]common.Hash{}, "after all parallel submissions")
	s.full = 0
	s.block(len(s.n.Comet.Pool()), nil)
	for a, f := range first {
		acc, err := s.c.App.AccountKeeper.Accounts.Get(s.c.QCtx(), sdk.AccAddress(a[:]))
		must(err)
		if acc.GetSequence() != f+uint64(per) {
			s.bad("parallel-chain", "account %s has nonce %d on chain, not %d", a, acc.GetSequence(), f+uint64(per))
		}
	}
	s.r.Eval(len(all))
	s.r.Count("parallel_submitted", len(all))
	sw := 0
	for i := 1; i < len(order); i++ {
		if order[i][:4] != order[i-1][:4] {
			sw++
		}
	}
	s.r.Count("sender_switches", sw)
	s.r.Distinct("parallel " + fmt.Sprintf("%x", sha256.Sum256([]byte(strings.Join(order, ","))))[:16])
}
