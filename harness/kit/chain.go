// Package verifkit is the in-process test bench of /verif: it boots the real
// MinitiaApp with a deterministic genesis, drives it through ABCI and gives the
// monitors read access to everything the node persisted.
package verifkit

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256r1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	"github.com/initia-labs/initia/crypto/ethsecp256k1"
	minitiaapp "github.com/initia-labs/minievm/app"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// FeeDenom is the fee denom of every bench chain.
const FeeDenom = "umin"

var sdkConfigOnce sync.Once

// SetupSDK sets the bech32 prefixes the binary sets.
func SetupSDK() {
	sdkConfigOnce.Do(func() {
		c := sdk.GetConfig()
		p := minitiaapp.AccountAddressPrefix
		c.SetBech32PrefixForAccount(p, p+"pub")
		c.SetBech32PrefixForValidator(p+"valoper", p+"valoperpub")
		c.SetBech32PrefixForConsensusNode(p+"valcons", p+"valconspub")
		c.SetAddressVerifier(minitiaapp.VerifyAddressLen())
	})
}

// Account is a deterministic externally owned account.
type Account struct {
	Name string
	Key  *ethsecp256k1.PrivKey // nil for a 32-byte account
	Priv cryptotypes.PrivKey
	Eth  common.Address // shorthand address for a 32-byte account
	Acc  sdk.AccAddress
}

func NewAccount(name string) *Account {
	seed := sha256.Sum256([]byte("verif-account-" + name))
	// scalar is in range with overwhelming probability; ToECDSA rejects otherwise
	if _, err := crypto.ToECDSA(seed[:]); err != nil {
		panic(err)
	}
	k := &ethsecp256k1.PrivKey{Key: seed[:]}
	addr := k.PubKey().Address()
	return &Account{Name: name, Key: k, Priv: k, Eth: common.BytesToAddress(addr), Acc: sdk.AccAddress(addr.Bytes())}
}

// NewLongAccount is an account with a 32-byte address (secp256r1 key).
func NewLongAccount(name string) *Account {
	seed := sha256.Sum256([]byte("verif-long-" + name))
	k := &secp256r1.PrivKey{}
	if err := k.Unmarshal(append([]byte{0x0a, 32}, seed[:]...)); err != nil {
		panic(err)
	}
	addr := k.PubKey().Address()
	return &Account{Name: name, Priv: k, Eth: common.BytesToAddress(addr), Acc: sdk.AccAddress(addr.Bytes())}
}

func (a *Account) Bech() string { return a.Acc.String() }

// Config describes a bench chain.
type Config struct {
	ChainID  string
	NAcc     int
	Balances sdk.Coins // per account
	MaxGas   int64
	// GasPrice is the min gas price of the fee denom (opchild params), "" for none
	GasPrice string
	EVM      func(p *evmtypes.GenesisState)
	Genesis  func(app *minitiaapp.MinitiaApp, gs minitiaapp.GenesisState)
	// DBs: reuse to restart
	DB, IndexerDB, KVIndexerDB dbm.DB
	EVMConfig                  *evmconfig.EVMConfig
	AppOpts                    servertypes.AppOptions
	// Indexer switches the JSON-RPC indexer on (the node's default)
	Indexer bool
	NoInit  bool // do not InitChain (restart)
	NoBlock bool // leave the first block to the caller
	// RawGenesis replaces the generated app state
	RawGenesis []byte
	// InitialHeight of the chain (1)
	InitialHeight int64
	// GenesisTime, GenesisParams and GenesisVals of an exported chain
	GenesisTime   time.Time
	GenesisParams *tmproto.ConsensusParams
	GenesisVals   []abci.ValidatorUpdate
	BaseOpts      []func(*baseapp.BaseApp)
}

// BlockRecord keeps what the driver fed and got.
type BlockRecord struct {
	Height int64
	Txs    [][]byte
	Res    *abci.ResponseFinalizeBlock
	Time   time.Time
	Hash   []byte
}

// Chain is a running app.
type Chain struct {
	Cfg      Config
	App      *minitiaapp.MinitiaApp
	Accs     []*Account
	Val      *Account // not a signer of blocks; admin and bridge executor
	Height   int64
	Now      time.Time
	Blocks   []BlockRecord
	Genesis  []byte
	Init     *abci.ResponseInitChain
	HaltErr  error // error or panic from FinalizeBlock/Commit
	BlockGap time.Duration

	// abci is held by the calls a node makes one at a time
	abci     sync.Mutex
	onCommit []func()
	// Committed runs between the commit and the mempool's recheck
	Committed func()
}

type opts map[string]any

func (o opts) Get(k string) any { return o[k] }

// DefaultBalances of every bench account.
func DefaultBalances() sdk.Coins {
	big18, _ := math.NewIntFromString("1000000000000000000000000")
	return sdk.NewCoins(
		sdk.NewCoin(FeeDenom, big18),
		sdk.NewCoin("uusdc", math.NewInt(1_000_000_000_000)),
		sdk.NewCoin("ibc/ABCDEF", math.NewInt(5_000_000)),
		sdk.NewCoin("zeta", math.NewInt(777_777)),
	)
}

var making sync.Mutex

func NewChain(cfg Config) *Chain {
	SetupSDK()
	if cfg.ChainID == "" {
		cfg.ChainID = "verif-7"
	}
	if cfg.NAcc == 0 {
		cfg.NAcc = 6
	}
	if cfg.Balances == nil {
		cfg.Balances = DefaultBalances()
	}
	if cfg.MaxGas == 0 {
		cfg.MaxGas = 1234000000
	}
	if cfg.DB == nil {
		cfg.DB = dbm.NewMemDB()
	}
	if cfg.IndexerDB == nil {
		cfg.IndexerDB = dbm.NewMemDB()
	}
	if cfg.KVIndexerDB == nil {
		cfg.KVIndexerDB = dbm.NewMemDB()
	}
	ec := evmconfig.DefaultEVMConfig()
	ec.IndexerCacheSize = 8
	if cfg.EVMConfig != nil {
		ec = *cfg.EVMConfig
	}
	if cfg.AppOpts == nil {
		o := opts{}
		if cfg.Indexer {
			o["indexer.enable"] = true
			o["indexer.cache-capacity"] = 8
			o["indexer.backend"] = map[string]any{}
		}
		cfg.AppOpts = o
	}
	c := &Chain{Cfg: cfg, Now: time.Unix(1_700_000_000, 0).UTC(), BlockGap: 3_777_777_777}
	for i := 0; i < cfg.NAcc; i++ {
		c.Accs = append(c.Accs, NewAccount(fmt.Sprintf("acc%d", i)))
	}
	c.Val = NewAccount("admin")
	c.Cfg = cfg
	making.Lock() // (what construction registers is process-wide)
	c.App = minitiaapp.NewMinitiaApp(log.NewNopLogger(), cfg.DB, cfg.IndexerDB, cfg.KVIndexerDB, nil, true, ec, cfg.AppOpts,
		append([]func(*baseapp.BaseApp){baseapp.SetChainID(cfg.ChainID)}, cfg.BaseOpts...)...)
	making.Unlock()
	if cfg.NoInit {
		c.Height = c.App.LastBlockHeight()
		return c
	}

	state := cfg.RawGenesis
	if state == nil {
		gs := minitiaapp.NewDefaultGenesisState(c.App.AppCodec(), c.App.BasicModuleManager, FeeDenom)
		cdc := c.App.AppCodec()

		var genAccs []authtypes.GenesisAccount
		var bals []banktypes.Balance
		for _, a := range append(append([]*Account{}, c.Accs...), c.Val) {
			genAccs = append(genAccs, authtypes.NewBaseAccount(a.Acc, nil, 0, 0))
			bals = append(bals, banktypes.Balance{Address: a.Bech(), Coins: cfg.Balances})
		}
		gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), genAccs))
		gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultGenesisState().Params, bals, sdk.NewCoins(), nil, nil))

		pk := ed25519.GenPrivKeyFromSecret([]byte("verif-validator")).PubKey()
		pkAny, err := codectypes.NewAnyWithValue(pk)
		if err != nil {
			panic(err)
		}
		var og opchildtypes.GenesisState
		cdc.MustUnmarshalJSON(gs[opchildtypes.ModuleName], &og)
		og.Params.Admin = c.Val.Bech()
		og.Params.BridgeExecutors = []string{c.Val.Bech()}
		if cfg.GasPrice != "" {
			og.Params.MinGasPrices = sdk.NewDecCoins(sdk.NewDecCoinFromDec(FeeDenom, math.LegacyMustNewDecFromStr(cfg.GasPrice)))
		}
		og = *opchildtypes.NewGenesisState(og.Params, []opchildtypes.Validator{{
			Moniker: "v", OperatorAddress: sdk.ValAddress(pk.Address()).String(), ConsensusPubkey: pkAny, ConsPower: 1,
		}}, nil)
		og.NextL1Sequence, og.NextL2Sequence = 1, 1
		gs[opchildtypes.ModuleName] = cdc.MustMarshalJSON(&og)

		if cfg.EVM != nil {
			var eg evmtypes.GenesisState
			cdc.MustUnmarshalJSON(gs[evmtypes.ModuleName], &eg)
			cfg.EVM(&eg)
			gs[evmtypes.ModuleName] = cdc.MustMarshalJSON(&eg)
		}
		if cfg.Genesis != nil {
			cfg.Genesis(c.App, gs)
		}
		state, err = json.Marshal(gs)
		if err != nil {
			panic(err)
		}
	}
	c.Genesis = state
	if cfg.InitialHeight == 0 {
		cfg.InitialHeight = 1
	}
	if !cfg.GenesisTime.IsZero() {
		c.Now = cfg.GenesisTime
	}
	if cfg.GenesisParams == nil {
		cfg.GenesisParams = &tmproto.ConsensusParams{
			Block:     &tmproto.BlockParams{MaxBytes: 8000000, MaxGas: cfg.MaxGas},
			Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
			Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{"ed25519"}},
		}
	}
	c.Cfg = cfg
	init, err := c.App.InitChain(&abci.RequestInitChain{
		ChainId:         cfg.ChainID,
		Time:            c.Now,
		ConsensusParams: cfg.GenesisParams,
		Validators:      cfg.GenesisVals,
		AppStateBytes:   state,
		InitialHeight:   cfg.InitialHeight,
	})
	if err != nil {
		panic(fmt.Sprintf("InitChain: %v", err))
	}
	c.Init = init
	c.Height = cfg.InitialHeight - 1
	if !cfg.NoBlock {
		c.Block()
	}
	return c
}

// HeaderHash the driver gives to height h.
func HeaderHash(chainID string, h int64) []byte {
	s := sha256.Sum256([]byte(fmt.Sprintf("hdr/%s/%d", chainID, h)))
	return s[:]
}

// Block finalizes and commits one block with exactly these txs.
func (c *Chain) Block(txs ...[]byte) *abci.ResponseFinalizeBlock {
	res := c.Finalize(txs...)
	if res != nil {
		c.Commit()
	}
	return res
}

// Finalize runs FinalizeBlock for the next height.
func (c *Chain) Finalize(txs ...[]byte) (res *abci.ResponseFinalizeBlock) {
	h := c.Height + 1
	return c.FinalizeAt(h, c.Now.Add(c.BlockGap), HeaderHash(c.Cfg.ChainID, h), txs)
}

// FinalizeAt runs FinalizeBlock for a given header.
func (c *Chain) FinalizeAt(h int64, now time.Time, hash []byte, txs [][]byte) (res *abci.ResponseFinalizeBlock) {
	c.abci.Lock()
	defer c.abci.Unlock()
	defer func() {
		if r := recover(); r != nil {
			c.HaltErr = fmt.Errorf("panic in FinalizeBlock(%d): %v", h, r)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Printf("%v\n%s\n", c.HaltErr, debug.Stack())
			}
			res = nil
		}
	}()
	r, err := c.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: h, Time: now, Txs: txs, Hash: hash})
	if err != nil {
		c.HaltErr = fmt.Errorf("FinalizeBlock(%d): %w", h, err)
		return nil
	}
	c.Height = h
	c.Now = now
	c.Blocks = append(c.Blocks, BlockRecord{Height: h, Txs: txs, Res: r, Time: now, Hash: hash})
	return r
}

func (c *Chain) Commit() {
	if c.commit() {
		if c.Committed != nil {
			c.Committed()
		}
		for _, f := range c.onCommit {
			f()
		}
	}
}

func (c *Chain) commit() (ok bool) {
	c.abci.Lock()
	defer c.abci.Unlock()
	defer func() {
		if r := recover(); r != nil {
			c.HaltErr = fmt.Errorf("panic in Commit(%d): %v", c.Height, r)
		}
	}()
	if _, err := c.App.Commit(); err != nil {
		c.HaltErr = fmt.Errorf("Commit(%d): %w", c.Height, err)
		return false
	}
	return true
}

// CheckLocked runs CheckTx as the node does: never beside a block. then runs before
// anything else is let in.
func (c *Chain) CheckLocked(req *abci.RequestCheckTx, then func(*abci.ResponseCheckTx)) (*abci.ResponseCheckTx, error) {
	c.abci.Lock()
	defer c.abci.Unlock()
	res, err := c.App.CheckTx(req)
	if err == nil && then != nil {
		then(res)
	}
	return res, err
}

// Replay runs a block another chain ran.
func (c *Chain) Replay(b BlockRecord) *abci.ResponseFinalizeBlock {
	res := c.FinalizeAt(b.Height, b.Time, b.Hash, b.Txs)
	if res != nil {
		c.Commit()
	}
	return res
}

// QCtx is a query context on the latest committed state.
func (c *Chain) QCtx() sdk.Context {
	ctx, err := c.App.CreateQueryContext(0, false)
	if err != nil {
		panic(err)
	}
	return ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
}

// Scratch is a write-through-nowhere context for direct keeper calls
// (finalize-mode like: infinite block gas, given gas limit).
func (c *Chain) Scratch(gas uint64) sdk.Context {
	ctx := c.QCtx().WithBlockHeight(c.Height + 1).WithBlockTime(c.Now.Add(c.BlockGap)).
		WithHeaderHash(HeaderHash(c.Cfg.ChainID, c.Height+1)).WithExecMode(sdk.ExecModeFinalize)
	if gas == 0 {
		ctx = ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
	} else {
		ctx = ctx.WithGasMeter(storetypes.NewGasMeter(gas))
	}
	ctx = ctx.WithEventManager(sdk.NewEventManager())
	cc, _ := ctx.CacheContext()
	return cc
}

// Dump is the full content of every persistent KV store.
type Dump map[string]map[string]string

// DumpCtx reads every persistent store through ctx.
func (c *Chain) DumpCtx(ctx sdk.Context) Dump {
	d := Dump{}
	keys := c.App.GetKVStoreKey()
	for name, k := range keys {
		m := map[string]string{}
		it := ctx.MultiStore().GetKVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			m[string(it.Key())] = string(it.Value())
		}
		it.Close()
		d[name] = m
	}
	return d
}

func (c *Chain) Dump() Dump { return c.DumpCtx(c.QCtx()) }

// DiffEntry is one changed key.
type DiffEntry struct {
	Store    string
	Key      string
	Old, New string
	HadOld   bool
	HasNew   bool
}

func (e DiffEntry) String() string {
	o, n := "<absent>", "<absent>"
	if e.HadOld {
		o = fmt.Sprintf("%x", e.Old)
	}
	if e.HasNew {
		n = fmt.Sprintf("%x", e.New)
	}
	return fmt.Sprintf("%s/%x: %s -> %s", e.Store, e.Key, o, n)
}

// Diff lists changed keys, sorted.
func Diff(a, b Dump) []DiffEntry {
	var out []DiffEntry
	stores := map[string]bool{}
	for s := range a {
		stores[s] = true
	}
	for s := range b {
		stores[s] = true
	}
	for s := range stores {
		for k, v := range a[s] {
			if w, ok := b[s][k]; !ok {
				out = append(out, DiffEntry{s, k, v, "", true, false})
			} else if w != v {
				out = append(out, DiffEntry{s, k, v, w, true, true})
			}
		}
		for k, w := range b[s] {
			if _, ok := a[s][k]; !ok {
				out = append(out, DiffEntry{s, k, "", w, false, true})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Store != out[j].Store {
			return out[i].Store < out[j].Store
		}
		return out[i].Key < out[j].Key
	})
	return out
}

func DiffString(d []DiffEntry, max int) string {
	var sb strings.Builder
	for i, e := range d {
		if i >= max {
			fmt.Fprintf(&sb, "... %d more", len(d)-max)
			break
		}
		s := e.String()
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		sb.WriteString(s + "\n")
	}
	return sb.String()
}

// Seq returns the committed sequence of acc.
func (c *Chain) Seq(acc sdk.AccAddress) uint64 {
	a := c.App.AccountKeeper.GetAccount(c.QCtx(), acc)
	if a == nil {
		return 0
	}
	return a.GetSequence()
}

// Bal returns the bank balance.
func (c *Chain) Bal(acc sdk.AccAddress, denom string) math.Int {
	return c.App.BankKeeper.GetBalance(c.QCtx(), acc, denom).Amount
}

// Contract returns the ERC20 contract of denom.
func (c *Chain) Contract(denom string) common.Address {
	a, err := evmtypes.DenomToContractAddr(c.QCtx(), c.App.EVMKeeper, denom)
	if err != nil {
		panic(err)
	}
	return a
}

// EthChainID of the chain.
func (c *Chain) EthChainID() *big.Int {
	return evmtypes.ConvertCosmosChainIDToEthereumChainID(c.Cfg.ChainID)
}
