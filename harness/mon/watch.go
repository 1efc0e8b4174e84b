package main

import (
	"fmt"
	"math/rand"
	"os"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/initia-labs/minievm/verifkit"
)

// watch is a monitor that looks on while random histories run.
type watch struct {
	cfg    func(rng *rand.Rand, c *verifkit.Config)
	blocks int // per history
	per    int // transactions per block
	empty  bool
	start  func(x *hrun)
	block  func(x *hrun, txs []*TxMeta) // after each block
	before func(x *hrun, txs []*TxMeta) []*TxMeta
	end    func(x *hrun)
}

// hrun is one history under a watch.
type hrun struct {
	*Hist
	r     *R
	id    string
	w     *watch
	state map[string]any
}

func (x *hrun) bad(sig, f string, a ...any) {
	x.r.Violate(x.id, sig, "block %d: "+f, append([]any{x.c.Height}, a...)...)
}

// class names what a transaction did.
func (m *TxMeta) class() string {
	return fmt.Sprintf("%s|%v|%s", m.Kind, m.Res.Code == 0, m.Shape)
}

// hists runs random histories of w.
func (r *R) hists(prefix string, quick, thorough int, w *watch) {
	if w.blocks == 0 {
		w.blocks = 10
	}
	if w.per == 0 {
		w.per = 14
	}
	r.ParCase(prefix, r.N(quick, thorough), func(id string, rng *rand.Rand) {
		cfg := histCfg(rng, id)
		if w.cfg != nil {
			w.cfg(rng, &cfg)
		}
		x := &hrun{Hist: newHist(rng, cfg), r: r, id: id, w: w, state: map[string]any{}}
		if w.start != nil {
			w.start(x)
		}
		for b := 0; b < w.blocks; b++ {
			txs := x.GenBlock(w.per)
			if w.before != nil {
				txs = w.before(x, txs)
			}
			if !x.step(txs) {
				return
			}
		}
		if w.end != nil {
			w.end(x)
		}
		r.Count("histories", 1)
	})
}

// step runs a block under the watch.
func (x *hrun) step(txs []*TxMeta) bool {
	if !x.Run(txs) {
		x.bad("halt", "%v", x.c.HaltErr)
		return false
	}
	x.r.Count("blocks", 1)
	if os.Getenv("VERIF_DEBUG") != "" {
		for _, m := range txs {
			fmt.Printf("%s %d/%d %s payer=%s(%s) seq=%v expect=%s predicted=%v code=%d fee=%s gas=%d/%d %s | %s\n", x.id, m.Height, m.Index, m.Kind, m.Payer, x.nameOf(m.Payer), m.Seqs, m.Expect, m.Predicted, m.Res.Code, m.Fee, m.Res.GasUsed, m.Res.GasWanted, m.Shape, m.Res.Log)
		}
	}
	for _, m := range txs {
		x.r.Count(fmt.Sprintf("tx_%s_%v", m.Kind, m.Res.Code == 0), 1)
		x.r.Count("txs", 1)
		x.r.Distinct(m.class())
		x.r.Sample("%s height %d index %d: %s %s ok=%v predicted=%v fee=%s %s", x.id, m.Height, m.Index, m.Kind, m.Shape, m.Res.Code == 0, m.Predicted, m.Fee, m.Note)
	}
	if x.w.block != nil {
		x.w.block(x, txs)
	}
	return true
}

const histRule = "distinct = transactions of random histories differing in kind, outcome or the sequence of calls, token operations and cosmos messages they make"

// outcomes compares every transaction's outcome with the ledger's.
func (x *hrun) outcomes(txs []*TxMeta, kinds func(m *TxMeta) bool) {
	for _, m := range txs {
		if kinds != nil && !kinds(m) {
			continue
		}
		x.r.Eval(1)
		if p := m.Mispredicted(); p != "" {
			x.bad("outcome-"+m.Kind, "tx %d %s [%s] %s: %s", m.Index, m.Kind, m.Shape, p, m.Res.Log)
		}
	}
}

func okTx(r *abci.ExecTxResult) bool { return r.Code == 0 }

func histCfg(rng *rand.Rand, id string) verifkit.Config {
	return verifkit.Config{ChainID: "verif-" + fmt.Sprint(1+rng.Intn(90000)), GasPrice: []string{"", "0.15", "2"}[rng.Intn(3)]}
}
