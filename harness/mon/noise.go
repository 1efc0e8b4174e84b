package main

import (
	"context"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// noise asks a node whatever clients may ask it.
type noise struct {
	r     *R
	n     *verifkit.Node // nil without JSON-RPC
	c     *verifkit.Chain
	rng   *rand.Rand
	addrs []common.Address
	calls [][]byte // inputs worth trying on any contract
	// txs may be submitted, simulated and proposed
	txs [][]byte
	// abci calls a node makes one at a time may be made
	abci bool
	seen map[string]int
	// head is the height to ask about (nil: the chain's)
	head func() int64
	envs []common.Address
}

func (z *noise) top() int64 {
	if z.head != nil {
		return z.head()
	}
	return z.c.Height
}

func (z *noise) addr() common.Address { return z.addrs[z.rng.Intn(len(z.addrs))] }

func (z *noise) input() []byte {
	if len(z.calls) > 0 && z.rng.Intn(4) > 0 {
		return z.calls[z.rng.Intn(len(z.calls))]
	}
	return pack(erc20ABI, "balanceOf", z.addr())
}

func (z *noise) height() int64 {
	switch z.rng.Intn(4) {
	case 0:
		return 0
	case 1:
		return z.top()
	}
	return 1 + z.rng.Int63n(z.top())
}

func (z *noise) blockArg() string {
	switch z.rng.Intn(6) {
	case 0:
		return "pending"
	case 1:
		return "earliest"
	case 2, 3:
		return "latest"
	}
	return hexutil.EncodeUint64(uint64(z.rng.Int63n(z.top() + 3)))
}

func (z *noise) tx() []byte {
	if len(z.txs) == 0 {
		return []byte{1, 2, 3}
	}
	bz := append([]byte{}, z.txs[z.rng.Intn(len(z.txs))]...)
	if z.rng.Intn(6) == 0 {
		bz[z.rng.Intn(len(bz))] ^= byte(1 << z.rng.Intn(8))
	}
	return bz
}

func (z *noise) rpc(method string, args ...any) error {
	var out any
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	err := z.n.Client.CallContext(ctx, &out, method, args...)
	if ctx.Err() != nil {
		z.r.Violate("noise", "rpc-timeout", "%s %v gave no answer within a minute", method, args)
	}
	return err
}

// ask makes one request.
func (z *noise) ask() {
	rng := z.rng
	what := ""
	var err error
	k := rng.Intn(30)
	if z.n == nil && k < 14 {
		k += 14
	}
	callArg := func() map[string]any {
		m := map[string]any{"from": z.addr(), "data": hexutil.Bytes(z.input())}
		if rng.Intn(8) > 0 {
			m["to"] = z.addr()
		} else {
			m["data"] = hexutil.Bytes(verifkit.Deployer(puppetCode()))
		}
		if rng.Intn(4) == 0 {
			m["value"] = (*hexutil.Big)(big.NewInt(rng.Int63n(1 << 40)))
		}
		return m
	}
	switch k {
	case 0, 1, 2:
		what = "eth_call"
		err = z.rpc(what, callArg(), z.blockArg())
	case 3, 4:
		what = "eth_estimateGas"
		err = z.rpc(what, callArg())
	case 5:
		what = []string{"eth_getBalance", "eth_getCode", "eth_getTransactionCount"}[rng.Intn(3)]
		err = z.rpc(what, z.addr(), z.blockArg())
	case 6:
		what = "eth_getStorageAt"
		err = z.rpc(what, z.addr(), hexutil.EncodeUint64(uint64(rng.Intn(5))), z.blockArg())
	case 7:
		what = []string{"eth_getBlockByNumber", "eth_getBlockReceipts", "eth_getBlockTransactionCountByNumber"}[rng.Intn(3)]
		if what == "eth_getBlockByNumber" {
			err = z.rpc(what, z.blockArg(), rng.Intn(2) == 0)
		} else {
			err = z.rpc(what, z.blockArg())
		}
	case 8:
		what = "eth_getLogs"
		err = z.rpc(what, map[string]any{"fromBlock": hexutil.EncodeUint64(uint64(rng.Int63n(z.top() + 1))), "toBlock": "latest"})
	case 9:
		what = "eth_feeHistory"
		err = z.rpc(what, hexutil.EncodeUint64(uint64(1+rng.Intn(5))), z.blockArg(), []float64{25, 75})
	case 10:
		what = []string{"eth_gasPrice", "eth_blockNumber", "eth_chainId", "txpool_content", "txpool_status", "txpool_inspect", "eth_pendingTransactions", "net_version", "web3_clientVersion", "eth_syncing", "eth_maxPriorityFeePerGas"}[rng.Intn(11)]
		err = z.rpc(what)
	case 11:
		what = []string{"eth_newFilter", "eth_newBlockFilter", "eth_newPendingTransactionFilter"}[rng.Intn(3)]
		if what == "eth_newFilter" {
			err = z.rpc(what, map[string]any{"fromBlock": "latest"})
		} else {
			err = z.rpc(what)
		}
	case 12, 13:
		if len(z.txs) == 0 || !z.abci {
			return
		}
		what = "eth_sendRawTransaction"
		sdkTx, e := z.c.App.TxDecode(z.txs[rng.Intn(len(z.txs))])
		if e != nil {
			return
		}
		et, _, e := ethOf(z.c, sdkTx)
		if e != nil || et == nil {
			return
		}
		raw, e := et.MarshalBinary()
		must(e)
		err = z.rpc(what, hexutil.Bytes(raw))
	case 14, 15, 16:
		what = "evm.Call"
		q := &evmtypes.QueryCallRequest{Sender: sdk.AccAddress(z.addr().Bytes()).String(), ContractAddr: z.addr().Hex(), Input: hexutil.Encode(z.input()), Value: math.NewInt(int64(rng.Intn(3)))}
		if rng.Intn(8) == 0 {
			q.ContractAddr, q.Input = "", hexutil.Encode(verifkit.Deployer(puppetCode()))
		}
		if rng.Intn(4) == 0 {
			q.TraceOptions = &evmtypes.TraceOptions{WithMemory: true, WithStack: true, WithStorage: true, WithReturnData: true}
		}
		if rng.Intn(10) == 0 {
			q.Sender = sdk.AccAddress(evmtypes.StdAddress.Bytes()).String()
		}
		err = grpc(z.c, z.height(), "/minievm.evm.v1.Query/Call", q, &evmtypes.QueryCallResponse{})
	case 17:
		what = "evm.Code"
		err = grpc(z.c, z.height(), "/minievm.evm.v1.Query/Code", &evmtypes.QueryCodeRequest{ContractAddr: z.addr().Hex()}, &evmtypes.QueryCodeResponse{})
	case 18:
		what = "evm.State"
		err = grpc(z.c, z.height(), "/minievm.evm.v1.Query/State", &evmtypes.QueryStateRequest{ContractAddr: z.addr().Hex(), Key: common.BigToHash(big.NewInt(int64(rng.Intn(6)))).Hex()}, &evmtypes.QueryStateResponse{})
	case 19:
		what = "evm.Denom"
		err = grpc(z.c, z.height(), "/minievm.evm.v1.Query/Denom", &evmtypes.QueryDenomRequest{ContractAddr: z.addr().Hex()}, &evmtypes.QueryDenomResponse{})
	case 20:
		what = "evm.ContractAddrByDenom"
		err = grpc(z.c, z.height(), "/minievm.evm.v1.Query/ContractAddrByDenom", &evmtypes.QueryContractAddrByDenomRequest{Denom: []string{"uusdc", "umin", "nope", "evm/" + z.addr().Hex()[2:]}[rng.Intn(4)]}, &evmtypes.QueryContractAddrByDenomResponse{})
	case 21:
		what = "bank.AllBalances"
		err = grpc(z.c, z.height(), "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: sdk.AccAddress(z.addr().Bytes()).String(), Pagination: &query.PageRequest{Limit: uint64(1 + rng.Intn(5)), CountTotal: rng.Intn(2) == 0}}, &banktypes.QueryAllBalancesResponse{})
	case 22:
		what = "bank.TotalSupply"
		err = grpc(z.c, z.height(), "/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{}, &banktypes.QueryTotalSupplyResponse{})
	case 23:
		what = "auth.Accounts"
		err = grpc(z.c, z.height(), "/cosmos.auth.v1beta1.Query/Accounts", &authtypes.QueryAccountsRequest{}, &authtypes.QueryAccountsResponse{})
	case 24:
		what = "opchild.Params"
		err = grpc(z.c, z.height(), "/opinit.opchild.v1.Query/Params", &opchildtypes.QueryParamsRequest{}, &opchildtypes.QueryParamsResponse{})
	case 25, 26:
		what = "simulate"
		_, _, err = z.c.App.Simulate(z.tx())
	case 27:
		if !z.abci {
			return
		}
		what = "checktx"
		var res *abci.ResponseCheckTx
		ty := abci.CheckTxType_New
		if rng.Intn(3) == 0 {
			ty = abci.CheckTxType_Recheck
		}
		res, err = z.c.CheckLocked(&abci.RequestCheckTx{Tx: z.tx(), Type: ty}, nil)
		if err == nil && res.Code != 0 {
			err = fmt.Errorf("%d", res.Code)
		}
	case 28:
		if !z.abci {
			return
		}
		what = "prepare"
		var txs [][]byte
		for i := 0; i < rng.Intn(6); i++ {
			txs = append(txs, z.tx())
		}
		_, err = z.c.App.PrepareProposal(&abci.RequestPrepareProposal{Txs: txs, Height: z.top() + 1, Time: z.c.Now.Add(z.c.BlockGap), MaxTxBytes: 1 << 20, LocalLastCommit: abci.ExtendedCommitInfo{}})
	case 29:
		if !z.abci {
			return
		}
		what = "process"
		var txs [][]byte
		for i := 0; i < rng.Intn(6); i++ {
			txs = append(txs, z.tx())
		}
		var res *abci.ResponseProcessProposal
		res, err = z.c.App.ProcessProposal(&abci.RequestProcessProposal{Txs: txs, Height: z.top() + 1, Time: z.c.Now.Add(z.c.BlockGap), Hash: []byte("some other proposal ............")})
		if err == nil && res.Status != abci.ResponseProcessProposal_ACCEPT {
			err = fmt.Errorf("rejected")
		}
	}
	z.r.Count(fmt.Sprintf("ask_%s_%v", what, err == nil), 1)
	z.r.Count("asked", 1)
	if z.seen != nil {
		z.seen[what]++
	}
}
