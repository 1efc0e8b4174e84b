package main

import (
	"fmt"
	"math/big"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// grpc asks the node a query over ABCI at a height (0: latest).
func grpc(c *verifkit.Chain, height int64, path string, req, resp proto.Message) error {
	bz, err := proto.Marshal(req)
	must(err)
	r, err := c.App.Query(nil, &abci.RequestQuery{Path: path, Data: bz, Height: height})
	if err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("%s", r.Log)
	}
	must(proto.Unmarshal(r.Value, resp))
	return nil
}

// view calls a contract method without keeping anything; nil on failure.
func view(ctx sdk.Context, c *verifkit.Chain, to common.Address, a *abi.ABI, m string, args ...any) []any {
	ret, err := c.App.EVMKeeper.EVMStaticCall(unlimited(ctx), evmtypes.NullAddress, to, pack(a, m, args...), nil)
	if err != nil {
		return nil
	}
	out, err := a.Unpack(m, ret)
	if err != nil {
		return nil
	}
	return out
}

// viewInt is a view of one number; zero when the contract cannot tell.
func viewInt(ctx sdk.Context, c *verifkit.Chain, to common.Address, m string, args ...any) *big.Int {
	out := view(ctx, c, to, erc20ABI, m, args...)
	if out == nil {
		return new(big.Int)
	}
	return out[0].(*big.Int)
}
