package verifkit

import (
	"context"
	"errors"
	"sync"

	"cosmossdk.io/log"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtbytes "github.com/cometbft/cometbft/libs/bytes"
	"github.com/cometbft/cometbft/p2p"
	rpcclient "github.com/cometbft/cometbft/rpc/client"
	coretypes "github.com/cometbft/cometbft/rpc/core/types"
	cmttypes "github.com/cometbft/cometbft/types"

	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/server"

	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/jsonrpc/backend"
	"github.com/initia-labs/minievm/jsonrpc/config"
	cosmosns "github.com/initia-labs/minievm/jsonrpc/namespaces/cosmos"
	ethns "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	netns "github.com/initia-labs/minievm/jsonrpc/namespaces/net"
	txpoolns "github.com/initia-labs/minievm/jsonrpc/namespaces/txpool"
	web3ns "github.com/initia-labs/minievm/jsonrpc/namespaces/web3"
)

// Comet stands in for the consensus node: its mempool and status.
type Comet struct {
	rpcclient.Client
	c *Chain

	mu   sync.Mutex
	pool [][]byte
	seen map[string]bool
	// Sent is every transaction handed to the mempool, in order
	Sent []Sent
	// Dropped are those that failed when checked again
	Dropped []Sent
	// Broadcast replaces the answer of the mempool if set
	Broadcast func(tx []byte) (*coretypes.ResultBroadcastTx, error, bool)
	// OnStatus runs after the height was told, before the caller learns it
	OnStatus func()
	// Before runs before a transaction is handled
	Before func()
	// Latest is the height the node reports
	latest int64
}

// Sent is one transaction that reached the mempool.
type Sent struct {
	Tx   []byte
	Code uint32
	Log  string
}

func (m *Comet) Status(context.Context) (*coretypes.ResultStatus, error) {
	m.mu.Lock()
	h := m.latest
	m.mu.Unlock()
	if m.OnStatus != nil {
		m.OnStatus()
	}
	return &coretypes.ResultStatus{
		NodeInfo: p2p.DefaultNodeInfo{Version: "verif", Moniker: "verif"},
		SyncInfo: coretypes.SyncInfo{LatestBlockHeight: h, EarliestBlockHeight: 1},
	}, nil
}

func (m *Comet) NetInfo(context.Context) (*coretypes.ResultNetInfo, error) {
	return &coretypes.ResultNetInfo{Listening: true, NPeers: 3}, nil
}

var errInCache = errors.New("tx already exists in cache")

func (m *Comet) BroadcastTxSync(_ context.Context, tx cmttypes.Tx) (*coretypes.ResultBroadcastTx, error) {
	if m.Before != nil {
		m.Before()
	}
	m.mu.Lock()
	if m.Broadcast != nil {
		if r, err, ok := m.Broadcast(tx); ok {
			m.mu.Unlock()
			return r, err
		}
	}
	if m.seen[string(tx)] {
		m.mu.Unlock()
		return nil, errInCache
	}
	m.seen[string(tx)] = true
	m.mu.Unlock()
	res, err := m.c.CheckLocked(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New}, func(res *abci.ResponseCheckTx) {
		m.mu.Lock()
		defer m.mu.Unlock()
		m.Sent = append(m.Sent, Sent{tx, res.Code, res.Log})
		if res.Code == 0 {
			m.pool = append(m.pool, tx)
		} else {
			delete(m.seen, string(tx))
		}
	})
	if err != nil {
		return nil, err
	}
	return &coretypes.ResultBroadcastTx{Code: res.Code, Data: res.Data, Log: res.Log, Codespace: res.Codespace, Hash: cmtbytes.HexBytes(tx.Hash())}, nil
}

func (m *Comet) UnconfirmedTxs(_ context.Context, limit *int) (*coretypes.ResultUnconfirmedTxs, error) {
	n := 30
	if limit != nil {
		n = *limit
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	out := &coretypes.ResultUnconfirmedTxs{Total: len(m.pool)}
	for i, tx := range m.pool {
		if i == n {
			break
		}
		out.Txs = append(out.Txs, tx)
	}
	out.Count = len(out.Txs)
	return out, nil
}

func (m *Comet) NumUnconfirmedTxs(context.Context) (*coretypes.ResultUnconfirmedTxs, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return &coretypes.ResultUnconfirmedTxs{Count: len(m.pool), Total: len(m.pool)}, nil
}

// AllSent is Sent for use beside submissions.
func (m *Comet) AllSent() []Sent {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]Sent{}, m.Sent...)
}

// Pool is what waits in the mempool.
func (m *Comet) Pool() [][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([][]byte{}, m.pool...)
}

// SetPool replaces the content of the mempool without checks.
func (m *Comet) SetPool(txs [][]byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.pool = txs
}

// SetLatest sets the height the node reports.
func (m *Comet) SetLatest(h int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.latest = h
}

// Update is what the node does with its mempool after a block: included transactions leave,
// the others are checked again.
func (m *Comet) Update(block [][]byte, h int64) {
	m.mu.Lock()
	m.latest = h
	in := map[string]bool{}
	for _, tx := range block {
		in[string(tx)] = true
	}
	old := m.pool
	m.mu.Unlock()
	var keep [][]byte
	for _, tx := range old {
		if in[string(tx)] {
			continue
		}
		res, err := m.c.CheckLocked(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_Recheck}, nil)
		if err == nil && res.Code == 0 {
			keep = append(keep, tx)
		} else {
			m.mu.Lock()
			delete(m.seen, string(tx))
			if err == nil {
				m.Dropped = append(m.Dropped, Sent{tx, res.Code, res.Log})
			}
			m.mu.Unlock()
		}
	}
	m.mu.Lock()
	m.pool = keep
	m.mu.Unlock()
}

// Node is a chain with its JSON-RPC interface.
type Node struct {
	C       *Chain
	Comet   *Comet
	Backend *backend.JSONRPCBackend
	Filters *filters.FilterAPI
	Server  *rpc.Server
	Client  *rpc.Client
}

// Contexts are what a server on top of the node is started with.
func (n *Node) Contexts() (*server.Context, client.Context) {
	c := n.C
	return server.NewDefaultContext(), client.Context{}.WithClient(n.Comet).WithTxConfig(c.App.TxConfig()).WithChainID(c.Cfg.ChainID).WithInterfaceRegistry(c.App.InterfaceRegistry()).WithCodec(c.App.AppCodec())
}

// NewNode puts the JSON-RPC interface on the chain (which needs Config.Indexer).
func (c *Chain) NewNode(edit func(cfg *config.JSONRPCConfig)) *Node {
	n := &Node{C: c, Comet: &Comet{c: c, seen: map[string]bool{}, latest: c.Height}}
	cfg := config.DefaultJSONRPCConfig()
	if edit != nil {
		edit(&cfg)
	}
	sctx, cctx := n.Contexts()
	lg := log.NewNopLogger()
	b, err := backend.NewJSONRPCBackend(c.App, lg, sctx, cctx, cfg)
	if err != nil {
		panic(err)
	}
	n.Backend = b
	n.Filters = filters.NewFilterAPI(c.App, b, lg)
	n.Server = rpc.NewServer()
	for name, svc := range map[string]any{"net": netns.NewNetAPI(lg, b), "web3": web3ns.NewWeb3API(lg, b), "txpool": txpoolns.NewTxPoolAPI(lg, b), "cosmos": cosmosns.NewCosmosAPI(lg, b)} {
		if err := n.Server.RegisterName(name, svc); err != nil {
			panic(err)
		}
	}
	for _, svc := range []any{ethns.NewEthAPI(lg, b), n.Filters} {
		if err := n.Server.RegisterName("eth", svc); err != nil {
			panic(err)
		}
	}
	n.Client = rpc.DialInProc(n.Server)
	c.onCommit = append(c.onCommit, func() {
		last := c.Blocks[len(c.Blocks)-1]
		n.Comet.Update(last.Txs, last.Height)
	})
	return n
}
