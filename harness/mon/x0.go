package main

import (
	"context"
	"fmt"
	"math/big"
	"time"

	"github.com/cometbft/cometbft/crypto/tmhash"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/trie"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifkit"
)

// ethRec is an Ethereum transaction the chain executed, as the driver saw it.
type ethRec struct {
	m        *TxMeta
	tx       *coretypes.Transaction
	from     common.Address
	idx      int // among the Ethereum transactions of the block
	ok       bool
	gas, cum uint64
	logs     []*coretypes.Log
	contract *common.Address
	blk      *ethBlk
	cosmos   []byte
}

type ethBlk struct {
	height int64
	time   time.Time
	txs    []*ethRec
	logs   []*coretypes.Log
	bloom  coretypes.Bloom
	txRoot common.Hash
	// hash is what the node calls the block; learnt when it is first asked
	hash common.Hash
}

// rejected tells that a transaction of a block was not executed at all.
func rejected(m *TxMeta) bool { return m.Res.Code != 0 && len(m.Res.Events) == 0 }

// ethBook is the Ethereum view of the chain as it has to be.
type ethBook struct {
	blocks []*ethBlk // by height, starting with 1
	byHash map[common.Hash]*ethRec
	// refused are transactions blocks carried in vain
	refused map[common.Hash]*TxMeta
}

func newEthBook() *ethBook {
	return &ethBook{byHash: map[common.Hash]*ethRec{}, refused: map[common.Hash]*TxMeta{}}
}

// sync takes in the blocks the history has run since.
func (b *ethBook) sync(x *hrun) {
	metas := map[int64][]*TxMeta{}
	for _, ms := range x.Blocks {
		if len(ms) > 0 {
			metas[ms[0].Height] = ms
		}
	}
	for _, rec := range x.c.Blocks[len(b.blocks):] {
		k := &ethBlk{height: rec.Height, time: rec.Time}
		if rec.Height != int64(len(b.blocks)+1) || len(metas[rec.Height]) != len(rec.Txs) {
			panic(harnessPanic{fmt.Sprintf("block %d is not in the books", rec.Height)})
		}
		cum, signer := uint64(0), coretypes.LatestSignerForChainID(x.c.EthChainID())
		var all []*coretypes.Transaction
		for _, m := range metas[rec.Height] {
			if m.Eth == nil {
				continue
			}
			if rejected(m) {
				b.refused[m.Eth.Hash()] = m
				continue
			}
			from, err := coretypes.Sender(signer, m.Eth)
			must(err)
			cum += uint64(m.Res.GasUsed)
			e := &ethRec{m: m, tx: m.Eth, from: from, idx: len(k.txs), ok: m.Res.Code == 0, gas: uint64(m.Res.GasUsed), cum: cum, blk: k, cosmos: tmhash.Sum(m.Bytes)}
			if e.ok {
				e.logs = evmtypes.Logs(txLogs(m.Res)).ToEthLogs()
				for i, l := range e.logs {
					l.BlockNumber, l.TxHash, l.TxIndex, l.Index = uint64(rec.Height), e.tx.Hash(), uint(e.idx), uint(len(k.logs)+i)
				}
				if e.tx.To() == nil {
					a := createAddr(from, e.tx.Nonce())
					e.contract = &a
				}
			}
			k.logs = append(k.logs, e.logs...)
			k.txs = append(k.txs, e)
			all = append(all, e.tx)
			b.byHash[e.tx.Hash()] = e
		}
		for _, l := range k.logs {
			k.bloom.Add(l.Address.Bytes())
			for _, t := range l.Topics {
				k.bloom.Add(t.Bytes())
			}
		}
		k.txRoot = coretypes.DeriveSha(coretypes.Transactions(all), trie.NewStackTrie(nil))
		b.blocks = append(b.blocks, k)
	}
}

// learn gets the block hash the node uses.
func (b *ethBook) learn(k *ethBlk, h common.Hash) {
	k.hash = h
	for _, l := range k.logs {
		l.BlockHash = h
	}
}

func (b *ethBook) last() *ethBlk { return b.blocks[len(b.blocks)-1] }

// call asks the node; nil error and out filled.
func call(n *verifkit.Node, out any, method string, args ...any) error {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	return n.Client.CallContext(ctx, out, method, args...)
}

func sameLog(a, b *coretypes.Log) string {
	switch {
	case a.Address != b.Address:
		return fmt.Sprintf("address %s, not %s", b.Address, a.Address)
	case fmt.Sprint(a.Topics) != fmt.Sprint(b.Topics):
		return fmt.Sprintf("topics %s, not %s", b.Topics, a.Topics)
	case string(a.Data) != string(b.Data):
		return fmt.Sprintf("data %x, not %x", b.Data, a.Data)
	case a.BlockNumber != b.BlockNumber || a.BlockHash != b.BlockHash:
		return fmt.Sprintf("block %d %s, not %d %s", b.BlockNumber, b.BlockHash, a.BlockNumber, a.BlockHash)
	case a.TxHash != b.TxHash || a.TxIndex != b.TxIndex:
		return fmt.Sprintf("transaction %s at %d, not %s at %d", b.TxHash, b.TxIndex, a.TxHash, a.TxIndex)
	case a.Index != b.Index:
		return fmt.Sprintf("position %d, not %d", b.Index, a.Index)
	case b.Removed:
		return "marked as removed"
	}
	return ""
}

// sameLogs compares what was answered with what is right.
func sameLogs(want, got []*coretypes.Log) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d logs instead of %d; log %d of block %d is missing", len(got), len(want), want[i].Index, want[i].BlockNumber)
		}
		if d := sameLog(want[i], got[i]); d != "" {
			return fmt.Sprintf("log %d of %d: %s", i, len(want), d)
		}
	}
	if len(got) > len(want) {
		l := got[len(want)]
		return fmt.Sprintf("%d logs instead of %d; log %d of block %d does not belong there", len(got), len(want), l.Index, l.BlockNumber)
	}
	return ""
}

// reopen starts the node again on what its databases hold.
func (h *Hist) reopen(edit func(cfg *verifkit.Config)) {
	old := h.c
	cfg := old.Cfg
	cfg.NoInit = true
	if edit != nil {
		edit(&cfg)
	}
	c := verifkit.NewChain(cfg)
	c.Genesis, c.BlockGap = old.Genesis, old.BlockGap
	for _, b := range old.Blocks {
		if b.Height <= c.Height {
			c.Blocks = append(c.Blocks, b)
			c.Now = b.Time
		}
	}
	h.c = c
}

func bigHex(v string) *big.Int {
	n, _ := new(big.Int).SetString(v, 0)
	return n
}
