From 1af66e69e145c5f1ebbb17ed420407522b49b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/65] fix: keep the snapshot that RevertToSnapshot returns to

Dropping it lost every write the outer frame made, because Commit only
flushes the snapshots left on the stack.
---
 x/evm/state/statedb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4eb7926..2b4075b 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -585,8 +585,9 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	snap := s.snaps[i]
 	s.ctx = snap.ctx
 
-	// clear the snapshots after the given id
-	s.snaps = s.snaps[:i]
+	// clear the snapshots after the given id, but keep the one we reverted to;
+	// its context is in use again and must be written at commit.
+	s.snaps = s.snaps[:i+1]
 }
 
 // Prepare handles the preparatory steps for executing a state transition with.
-- 
2.43.0


From 0d47e8af66846042dcc4e2a6912d44e2c2ad10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 02/65] fix: scope EVM transient storage to its contract

TLOAD/TSTORE ignored the address, so every contract of a transaction shared
(and could overwrite) one transient key space.
---
 x/evm/state/keys.go    | 5 +++++
 x/evm/state/statedb.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/keys.go b/x/evm/state/keys.go
index 1919804..746fdf9 100644
--- a/x/evm/state/keys.go
+++ b/x/evm/state/keys.go
@@ -28,6 +28,11 @@ func stateKeyPrefix(addr common.Address) []byte {
 	return append(addr.Bytes(), StateKeyPrefix...)
 }
 
+// transientStateKey returns the transient storage key; transient storage is owned by a contract (EIP-1153)
+func transientStateKey(addr common.Address, slot common.Hash) []byte {
+	return append(addr.Bytes(), slot.Bytes()...)
+}
+
 func uint64ToBytes(v uint64) []byte {
 	bz := make([]byte, 8)
 	binary.BigEndian.PutUint64(bz, v)
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 2b4075b..acf9040 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -540,14 +540,14 @@ func (s *StateDB) SetTransientState(addr common.Address, key, value common.Hash)
 		return
 	}
 
-	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, key[:]), value[:]); err != nil {
+	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, transientStateKey(addr, key)), value[:]); err != nil {
 		panic(err)
 	}
 }
 
 // GetTransientState gets transient storage for a given account.
 func (s *StateDB) GetTransientState(addr common.Address, key common.Hash) common.Hash {
-	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, key[:]))
+	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, transientStateKey(addr, key)))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return common.Hash{}
 	} else if err != nil {
-- 
2.43.0


From eecdf31bb98011b6b5823cd866586a13ec1d6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 03/65] fix: close the store iterator opened by GetStorageRoot

---
 x/evm/state/statedb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index acf9040..3c8423c 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -715,7 +715,10 @@ func (s *StateDB) GetStorageRoot(addr common.Address) common.Hash {
 	iter, err := s.vmStore.Iterate(s.ctx, new(collections.Range[[]byte]).Prefix(stateKeyPrefix(addr)))
 	if err != nil {
 		panic(err)
-	} else if iter.Valid() {
+	}
+	defer iter.Close()
+
+	if iter.Valid() {
 		return nonEmptyHash
 	}
 
-- 
2.43.0


From 1ad7738417453fd58a4144aecc43ebffa83c733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 04/65] fix: consume the sequence number of a failed EVM
 transaction

The ante handler gave back the sequence increment of EVM senders and the post
handler took it again on failure, but post handler writes are discarded with
the failed messages (and it never runs after an out of gas panic). A failed
EVM tx could be replayed, charging its fee every time.

Keep the increment in the ante handler and let the first EVM message of the
sender take it over.
---
 app/ante/ante.go               |  6 ++--
 app/ante/sigverify.go          | 45 ++++++++++++++++++++++++--
 app/app.go                     |  1 -
 app/posthandler/posthandler.go |  3 --
 app/posthandler/sequence.go    | 59 ----------------------------------
 x/evm/keeper/msg_server.go     | 41 ++++++++++++++++++++++-
 x/evm/types/keys.go            |  7 ++++
 7 files changed, 94 insertions(+), 68 deletions(-)
 delete mode 100644 app/posthandler/sequence.go

diff --git a/app/ante/ante.go b/app/ante/ante.go
index 027611b..9dcd06c 100644
--- a/app/ante/ante.go
+++ b/app/ante/ante.go
@@ -97,7 +97,8 @@ func NewAnteHandler(options HandlerOptions) (sdk.AnteHandler, error) {
 		ante.NewValidateSigCountDecorator(options.AccountKeeper),
 		ante.NewSigGasConsumeDecorator(options.AccountKeeper, sigGasConsumer),
 		NewSigVerificationDecorator(options.AccountKeeper, options.EVMKeeper, options.SignModeHandler),
-		NewIncrementSequenceDecorator(options.AccountKeeper),
+		ante.NewIncrementSequenceDecorator(options.AccountKeeper),
+		NewEVMSequenceDecorator(options.AccountKeeper),
 		ibcante.NewRedundantRelayDecorator(options.IBCkeeper),
 		auctionante.NewAuctionDecorator(options.AuctionKeeper, options.TxEncoder, options.MevLane),
 	}
@@ -111,6 +112,7 @@ func CreateAnteHandlerForOPinit(ak ante.AccountKeeper, ek *evmkeeper.Keeper, sig
 		ante.NewValidateSigCountDecorator(ak),
 		ante.NewSigGasConsumeDecorator(ak, ante.DefaultSigVerificationGasConsumer),
 		NewSigVerificationDecorator(ak, ek, signModeHandler),
-		NewIncrementSequenceDecorator(ak),
+		ante.NewIncrementSequenceDecorator(ak),
+		NewEVMSequenceDecorator(ak),
 	)
 }
diff --git a/app/ante/sigverify.go b/app/ante/sigverify.go
index 0b4a464..43a02f0 100644
--- a/app/ante/sigverify.go
+++ b/app/ante/sigverify.go
@@ -211,6 +211,9 @@ func consumeMultisignatureVerificationGas(
 //
 // NOTE: When we execute evm messages, it whould handle sequence number increment internally,
 // so we need to decrease sequence number if it is used in EVM.
+//
+// Deprecated: the decrement survives a failing tx and so leaves its sequence number unconsumed.
+// Use EVMSequenceDecorator.
 type IncrementSequenceDecorator struct {
 	ak authante.AccountKeeper
 }
@@ -244,8 +247,6 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 
 	// decrement sequence of all signers which is used in EVM
 	// when we execute evm messages, it whould handle sequence number increment.
-	//
-	// NOTE: Need to revert it if a tx failed. See ../posthandler/sequence.go
 	if simulate || ctx.ExecMode() == sdk.ExecModeFinalize {
 		signerMap := make(map[string]bool)
 		for _, msg := range tx.GetMsgs() {
@@ -282,3 +283,43 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 
 	return next(ctx, tx, simulate)
 }
+
+// EVMSequenceDecorator records the senders of the evm messages of a tx, whose sequence number is
+// incremented by the preceding sequence decorator. The first evm message of each sender takes over
+// that increment instead of making another one, so the sequence number stays consumed if the
+// messages fail.
+type EVMSequenceDecorator struct {
+	ak authante.AccountKeeper
+}
+
+func NewEVMSequenceDecorator(ak authante.AccountKeeper) EVMSequenceDecorator {
+	return EVMSequenceDecorator{
+		ak: ak,
+	}
+}
+
+func (esd EVMSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (sdk.Context, error) {
+	senders := evmtypes.IncrementedSequences{}
+	for _, msg := range tx.GetMsgs() {
+		var caller string
+		switch msg := msg.(type) {
+		case *evmtypes.MsgCreate:
+			caller = msg.Sender
+		case *evmtypes.MsgCreate2:
+			caller = msg.Sender
+		case *evmtypes.MsgCall:
+			caller = msg.Sender
+		default:
+			continue
+		}
+
+		callerAccAddr, err := esd.ak.AddressCodec().StringToBytes(caller)
+		if err != nil {
+			return ctx, err
+		}
+
+		senders[string(callerAccAddr)] = true
+	}
+
+	return next(ctx.WithValue(evmtypes.CONTEXT_KEY_INCREMENTED_SEQUENCES, senders), tx, simulate)
+}
diff --git a/app/app.go b/app/app.go
index be76d43..c4f20e8 100644
--- a/app/app.go
+++ b/app/app.go
@@ -367,7 +367,6 @@ func (app *MinitiaApp) SetCheckTx(handler blockchecktx.CheckTx) {
 
 func (app *MinitiaApp) setPostHandler() {
 	app.SetPostHandler(posthandler.NewPostHandler(
-		app.AccountKeeper,
 		app.EVMKeeper,
 	))
 }
diff --git a/app/posthandler/posthandler.go b/app/posthandler/posthandler.go
index bd180e0..ec78649 100644
--- a/app/posthandler/posthandler.go
+++ b/app/posthandler/posthandler.go
@@ -5,18 +5,15 @@ import (
 
 	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
 
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 // NewPostHandler returns a new sdk.PostHandler that is composed of the sdk.ChainPostDecorators
 func NewPostHandler(
-	ak authante.AccountKeeper,
 	ek EVMKeeper,
 ) sdk.PostHandler {
 	return sdk.ChainPostDecorators(
-		NewSequenceIncrementDecorator(ak),
 		NewGasRefundDecorator(ek),
 	)
 }
diff --git a/app/posthandler/sequence.go b/app/posthandler/sequence.go
deleted file mode 100644
index aa79d46..0000000
--- a/app/posthandler/sequence.go
+++ /dev/null
@@ -1,59 +0,0 @@
-package posthandler
-
-import (
-	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
-)
-
-var _ sdk.PostDecorator = &SequenceIncrementDecorator{}
-
-type SequenceIncrementDecorator struct {
-	ak authante.AccountKeeper
-}
-
-func NewSequenceIncrementDecorator(ak authante.AccountKeeper) sdk.PostDecorator {
-	return &SequenceIncrementDecorator{
-		ak,
-	}
-}
-
-// If a transaction fails, we need to revert the sequence decrement for EVM messages that were executed in the ante handler.
-// This is necessary because the sequence increment in EVM was reverted due to the failure.
-func (sid *SequenceIncrementDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate, success bool, next sdk.PostHandler) (newCtx sdk.Context, err error) {
-	if !success && ctx.ExecMode() == sdk.ExecModeFinalize {
-		signerMap := make(map[string]bool)
-		for _, msg := range tx.GetMsgs() {
-			var caller string
-			switch msg := msg.(type) {
-			case *evmtypes.MsgCreate:
-				caller = msg.Sender
-			case *evmtypes.MsgCreate2:
-				caller = msg.Sender
-			case *evmtypes.MsgCall:
-				caller = msg.Sender
-			default:
-				continue
-			}
-
-			if _, ok := signerMap[caller]; ok {
-				continue
-			}
-			signerMap[caller] = true
-
-			callerAccAddr, err := sid.ak.AddressCodec().StringToBytes(caller)
-			if err != nil {
-				return ctx, err
-			}
-
-			acc := sid.ak.GetAccount(ctx, callerAccAddr)
-			if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
-				panic(err)
-			}
-
-			sid.ak.SetAccount(ctx, acc)
-		}
-	}
-
-	return next(ctx, tx, simulate, success)
-}
diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 26dffd4..bdba861 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -70,6 +70,10 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 		}
 	}
 
+	if err := ms.prepareCreateNonce(ctx, sender); err != nil {
+		return nil, err
+	}
+
 	// deploy a contract
 	retBz, contractAddr, logs, err := ms.EVMCreate(ctx, caller, codeBz, value, accessList)
 	if err != nil {
@@ -129,6 +133,10 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 		}
 	}
 
+	if err := ms.prepareCreateNonce(ctx, sender); err != nil {
+		return nil, err
+	}
+
 	// deploy a contract
 	retBz, contractAddr, logs, err := ms.EVMCreate2(ctx, caller, codeBz, value, msg.Salt, accessList)
 	if err != nil {
@@ -142,8 +150,39 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	}, nil
 }
 
-// increaseNonce increases the nonce of the given account.
+// takeIncrementedSequence reports whether the ante handler has incremented the sequence number
+// of the sender for the current message, and marks the increment as used.
+func takeIncrementedSequence(ctx context.Context, sender sdk.AccAddress) bool {
+	senders, _ := sdk.UnwrapSDKContext(ctx).Value(types.CONTEXT_KEY_INCREMENTED_SEQUENCES).(types.IncrementedSequences)
+	if !senders[string(sender)] {
+		return false
+	}
+
+	delete(senders, string(sender))
+	return true
+}
+
+// prepareCreateNonce restores the nonce of the sender to the one of the tx, because
+// evm increases nonce at Create by itself.
+func (ms *msgServerImpl) prepareCreateNonce(ctx context.Context, sender sdk.AccAddress) error {
+	if !takeIncrementedSequence(ctx, sender) {
+		return nil
+	}
+
+	senderAcc := ms.accountKeeper.GetAccount(ctx, sender)
+	if err := senderAcc.SetSequence(senderAcc.GetSequence() - 1); err != nil {
+		return err
+	}
+	ms.accountKeeper.SetAccount(ctx, senderAcc)
+	return nil
+}
+
+// increaseNonce increases the nonce of the given account, unless the ante handler did it.
 func (ms *msgServerImpl) increaseNonce(ctx context.Context, caller sdk.AccAddress) error {
+	if takeIncrementedSequence(ctx, caller) {
+		return nil
+	}
+
 	senderAcc := ms.accountKeeper.GetAccount(ctx, caller)
 	if senderAcc == nil {
 		senderAcc = ms.accountKeeper.NewAccountWithAddress(ctx, caller)
diff --git a/x/evm/types/keys.go b/x/evm/types/keys.go
index 8c6aa2b..4ec4a60 100644
--- a/x/evm/types/keys.go
+++ b/x/evm/types/keys.go
@@ -51,4 +51,11 @@ type ContextKey int
 const (
 	// CONTEXT_KEY_COSMOS_MESSAGES is a context key for cosmos messages
 	CONTEXT_KEY_COSMOS_MESSAGES ContextKey = iota
+	// CONTEXT_KEY_INCREMENTED_SEQUENCES is a context key for the evm message senders
+	// whose sequence number is already incremented by the ante handler
+	CONTEXT_KEY_INCREMENTED_SEQUENCES
 )
+
+// IncrementedSequences is a set of account addresses whose sequence number is incremented
+// by the ante handler for an evm message which is not executed yet.
+type IncrementedSequences map[string]bool
-- 
2.43.0


From d050994c069d2624f00532e055ec764c1e4f8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/65] fix: send only the erc20 coin itself to the community
 pool in BurnCoins

The whole amount was sent once per evm/ coin, so burning several coins took
coins twice or failed.
---
 x/evm/keeper/erc20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 813c143..7ef9ad7 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -66,7 +66,7 @@ func (k ERC20Keeper) BurnCoins(ctx context.Context, addr sdk.AccAddress, amount
 		// if a coin is not generated from 0x1, then send the coin to community pool
 		// because we don't have burn capability.
 		if types.IsERC20Denom(coin.Denom) {
-			if err := k.communityPoolKeeper.FundCommunityPool(ctx, amount, evmAddr.Bytes()); err != nil {
+			if err := k.communityPoolKeeper.FundCommunityPool(ctx, sdk.NewCoins(coin), evmAddr.Bytes()); err != nil {
 				return err
 			}
 
-- 
2.43.0


From adbfe71897f60b23c26fd42fc2540ecac43a1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 06/65] fix: apply the access list of MsgCall

---
 x/evm/keeper/msg_server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index bdba861..48c38a7 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -227,7 +227,9 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 		return nil, types.ErrInvalidValue.Wrap("value is out of range")
 	}
 
-	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, nil)
+	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
+
+	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, accessList)
 	if err != nil {
 		return nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
-- 
2.43.0


From badb4c042a31ab1b8a6e59e47e946b6f8a80384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 07/65] fix: revert precompile writes and cosmos messages with
 their call frame

---
 x/evm/keeper/context.go                      |  9 ++++++---
 x/evm/precompiles/cosmos/contract.go         |  2 +-
 x/evm/precompiles/erc20_registry/contract.go |  3 +--
 x/evm/state/snapshot.go                      |  3 +++
 x/evm/state/statedb.go                       | 19 +++++++++++++++++++
 x/evm/types/context.go                       | 19 +++++++++++++++++++
 x/evm/types/expected_keeper.go               |  5 +++++
 x/evm/types/keys.go                          |  3 +++
 8 files changed, 57 insertions(+), 6 deletions(-)
 create mode 100644 x/evm/types/context.go

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index a010cd5..e9982b7 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -169,6 +169,10 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	if err != nil {
 		return ctx, nil, err
 	}
+
+	// set cosmos messages to context before creating the state db,
+	// because the state db reverts the messages along with the state.
+	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	stateDB, err := k.NewStateDB(ctx, evm, fee)
 	if err != nil {
 		return ctx, nil, err
@@ -179,15 +183,14 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	// set cosmos messages to context
-	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	*evm = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(ctx),
+		// precompiles must work on the state of the call frame which executes them
+		k.precompiles.toMap(sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_FRAME_CONTEXT, stateDB)),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/precompiles/cosmos/contract.go b/x/evm/precompiles/cosmos/contract.go
index 1e6a1d7..d4f699e 100644
--- a/x/evm/precompiles/cosmos/contract.go
+++ b/x/evm/precompiles/cosmos/contract.go
@@ -111,7 +111,7 @@ func (e CosmosPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppl
 		return nil, 0, types.ErrPrecompileFailed.Wrap(err.Error())
 	}
 
-	ctx := sdk.UnwrapSDKContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
+	ctx := types.FrameContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
 
 	// charge input gas
 	ctx.GasMeter().ConsumeGas(storetypes.Gas(len(input))*GAS_PER_BYTE, "input bytes")
diff --git a/x/evm/precompiles/erc20_registry/contract.go b/x/evm/precompiles/erc20_registry/contract.go
index 593b7ea..704843b 100644
--- a/x/evm/precompiles/erc20_registry/contract.go
+++ b/x/evm/precompiles/erc20_registry/contract.go
@@ -8,7 +8,6 @@ import (
 	"github.com/ethereum/go-ethereum/core/vm"
 
 	storetypes "cosmossdk.io/store/types"
-	sdk "github.com/cosmos/cosmos-sdk/types"
 
 	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
 	"github.com/initia-labs/minievm/x/evm/types"
@@ -70,7 +69,7 @@ func (e ERC20RegistryPrecompile) ExtendedRun(caller vm.ContractRef, input []byte
 		return nil, 0, types.ErrPrecompileFailed.Wrap(err.Error())
 	}
 
-	ctx := sdk.UnwrapSDKContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
+	ctx := types.FrameContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
 	ctx.GasMeter().ConsumeGas(storetypes.Gas(len(input))*GAS_PER_BYTE, "input bytes")
 
 	switch method.Name {
diff --git a/x/evm/state/snapshot.go b/x/evm/state/snapshot.go
index de8f266..1ef0a79 100644
--- a/x/evm/state/snapshot.go
+++ b/x/evm/state/snapshot.go
@@ -9,6 +9,9 @@ import (
 type Snapshot struct {
 	ctx    sdk.Context
 	commit func()
+
+	// number of the cosmos messages collected before the snapshot
+	numMessages int
 }
 
 func NewSnapshot(ctx context.Context) *Snapshot {
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 3c8423c..4c76e1e 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -54,6 +54,9 @@ type StateDB struct {
 
 	// Snapshot stack
 	snaps []*Snapshot
+
+	// cosmos messages collected during the execution, nil if there is no collector in the context
+	messages *[]sdk.Msg
 }
 
 const (
@@ -94,6 +97,7 @@ func NewStateDB(
 		return nil, err
 	}
 
+	messages, _ := ctx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg)
 	s := &StateDB{
 		ctx:           ctx,
 		initialCtx:    ctx,
@@ -113,11 +117,18 @@ func NewStateDB(
 		evm:             evm,
 		erc20ABI:        erc20ABI,
 		feeContractAddr: feeContractAddr,
+
+		messages: messages,
 	}
 
 	return s, nil
 }
 
+// Context returns the context of the current call frame.
+func (s *StateDB) Context() sdk.Context {
+	return s.ctx
+}
+
 // AddBalance mint coins to the recipient
 func (s *StateDB) AddBalance(addr common.Address, amount *uint256.Int, _ tracing.BalanceChangeReason) {
 	if amount.IsZero() {
@@ -564,6 +575,9 @@ func (s *StateDB) Snapshot() int {
 
 	// create a new snapshot
 	snap := NewSnapshot(s.ctx)
+	if s.messages != nil {
+		snap.numMessages = len(*s.messages)
+	}
 	s.snaps = append(s.snaps, snap)
 
 	// use the new snapshot context
@@ -575,6 +589,11 @@ func (s *StateDB) Snapshot() int {
 
 // RevertToSnapshot reverts the state to the snapshot with the given id
 func (s *StateDB) RevertToSnapshot(i int) {
+	// drop the cosmos messages collected after the snapshot
+	if s.messages != nil && i+1 < len(s.snaps) {
+		*s.messages = (*s.messages)[:s.snaps[i+1].numMessages]
+	}
+
 	if i == -1 {
 		s.ctx = s.initialCtx
 		s.snaps = s.snaps[:0]
diff --git a/x/evm/types/context.go b/x/evm/types/context.go
new file mode 100644
index 0000000..7d0ebe4
--- /dev/null
+++ b/x/evm/types/context.go
@@ -0,0 +1,19 @@
+package types
+
+import (
+	"context"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
+)
+
+// FrameContext returns the context of the evm call frame in execution, so the changes
+// made through it are reverted with the frame. It returns the given context itself
+// if there is no evm execution.
+func FrameContext(ctx context.Context) sdk.Context {
+	sdkCtx := sdk.UnwrapSDKContext(ctx)
+	if provider, ok := sdkCtx.Value(CONTEXT_KEY_FRAME_CONTEXT).(FrameContextProvider); ok {
+		return provider.Context()
+	}
+
+	return sdkCtx
+}
diff --git a/x/evm/types/expected_keeper.go b/x/evm/types/expected_keeper.go
index 8585095..ffd5ded 100644
--- a/x/evm/types/expected_keeper.go
+++ b/x/evm/types/expected_keeper.go
@@ -89,6 +89,11 @@ type WithContext interface {
 	WithContext(ctx context.Context) vm.PrecompiledContract
 }
 
+// FrameContextProvider provides the context of the evm call frame in execution.
+type FrameContextProvider interface {
+	Context() sdk.Context
+}
+
 type GRPCRouter interface {
 	Route(path string) baseapp.GRPCQueryHandler
 }
diff --git a/x/evm/types/keys.go b/x/evm/types/keys.go
index 4ec4a60..7593640 100644
--- a/x/evm/types/keys.go
+++ b/x/evm/types/keys.go
@@ -54,6 +54,9 @@ const (
 	// CONTEXT_KEY_INCREMENTED_SEQUENCES is a context key for the evm message senders
 	// whose sequence number is already incremented by the ante handler
 	CONTEXT_KEY_INCREMENTED_SEQUENCES
+	// CONTEXT_KEY_FRAME_CONTEXT is a context key for the provider of the context
+	// of the evm call frame in execution
+	CONTEXT_KEY_FRAME_CONTEXT
 )
 
 // IncrementedSequences is a set of account addresses whose sequence number is incremented
-- 
2.43.0


From 83fc43a81c2cf9dd04e0a4cbfcbb45cf11179c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 08/65] fix: index values which do not fit in the indexer cache
 and deletion of uncached keys

---
 indexer/store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index dee7636..38932dd 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -78,9 +78,10 @@ func (c CacheStore) Set(key, value []byte) error {
 	storetypes.AssertValidKey(key)
 	storetypes.AssertValidValue(value)
 
-	err := c.cache.Set(string(key), value)
-	if err != nil {
-		return errors.Wrap(err, "failed to set cache")
+	// a value which does not fit in the cache is served from the store,
+	// just make sure that no stale value is left in the cache.
+	if err := c.cache.Set(string(key), value); err != nil {
+		_ = c.cache.Delete(string(key))
 	}
 	c.store.Set(key, value)
 
@@ -92,7 +93,7 @@ func (c CacheStore) Delete(key []byte) error {
 	storetypes.AssertValidKey(key)
 
 	err := c.cache.Delete(string(key))
-	if err != nil && errors.IsOf(err, bigcache.ErrEntryNotFound) {
+	if err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
 		return errors.Wrap(err, "failed to delete cache")
 	}
 	c.store.Delete(key)
-- 
2.43.0


From 4c72812acbf8783ad24b4def6a5b3de66e8560b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 09/65] fix: bind the whole cosmos tx to the signed ethereum tx

---
 indexer/abci.go         |  3 ++-
 x/evm/keeper/txutils.go | 47 ++++++++++++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index c8b6ef0..ed1445f 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -50,8 +50,9 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 
 		ethTx, _, err := keeper.NewTxUtils(e.evmKeeper).ConvertCosmosTxToEthereumTx(sdkCtx, tx)
 		if err != nil {
+			// an invalid tx must not stop the indexing of the block
 			e.logger.Error("failed to convert CosmosTx to EthTx", "err", err)
-			return err
+			continue
 		}
 		if ethTx == nil {
 			continue
diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 81d526a..e691715 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -225,17 +225,17 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
-	if len(fees) > 0 && fees[0].Denom != params.FeeDenom {
-		return nil, nil, nil
-	}
-
 	var tx *coretypes.Transaction
 
 	msg := msgs[0]
 	gas := authTx.GetGas()
 	typeUrl := sdk.MsgTypeURL(msg)
 
+	// a signature can come without a public key if the account already has one
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		return nil, nil, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return nil, nil, nil
@@ -262,13 +262,26 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	}
 
 	gasFeeCap, ok := new(big.Int).SetString(md.GasFeeCap, 10)
-	if !ok {
-		return nil, nil, err
+	if !ok || gasFeeCap.Sign() < 0 {
+		return nil, nil, nil
 	}
 
 	gasTipCap, ok := new(big.Int).SetString(md.GasTipCap, 10)
-	if !ok {
-		return nil, nil, err
+	if !ok || gasTipCap.Sign() < 0 {
+		return nil, nil, nil
+	}
+
+	// The signature covers only the ethereum transaction. So the other parts of
+	// the cosmos transaction must be exactly what the ethereum transaction implies.
+	feeAmount := computeGasFeeAmount(gasFeeCap, gas, decimals)
+	if feeAmount.BitLen() > math.MaxBitLen || fees.IsAnyNil() {
+		return nil, nil, nil
+	}
+	if !fees.Equal(sdk.NewCoins(sdk.NewCoin(params.FeeDenom, math.NewIntFromBigInt(feeAmount)))) {
+		return nil, nil, nil
+	}
+	if len(authTx.FeeGranter()) > 0 || !bytes.Equal(authTx.FeePayer(), cosmosSender.Bytes()) || authTx.GetTimeoutHeight() != 0 {
+		return nil, nil, nil
 	}
 
 	var to *common.Address
@@ -278,6 +291,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	switch typeUrl {
 	case "/minievm.evm.v1.MsgCall":
 		callMsg := msg.(*types.MsgCall)
+		if callMsg.Value.IsNil() {
+			return nil, nil, nil
+		}
 		contractAddr, err := types.ContractAddressFromString(u.ac, callMsg.ContractAddr)
 		if err != nil {
 			return nil, nil, err
@@ -298,6 +314,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 
 	case "/minievm.evm.v1.MsgCreate":
 		createMsg := msg.(*types.MsgCreate)
+		if createMsg.Value.IsNil() {
+			return nil, nil, nil
+		}
 		data, err := hexutil.Decode(createMsg.Code)
 		if err != nil {
 			return nil, nil, err
@@ -311,6 +330,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	case "/minievm.evm.v1.MsgCreate2":
 		// create2 is not supported
 		return nil, nil, nil
+	default:
+		// not an evm message
+		return nil, nil, nil
 	}
 
 	chainID := sdk.UnwrapSDKContext(ctx).ChainID()
@@ -319,6 +341,11 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	var txData coretypes.TxData
 	switch md.Type {
 	case coretypes.LegacyTxType:
+		// a legacy transaction does not have an access list
+		if len(accessList) > 0 {
+			return nil, nil, nil
+		}
+
 		txData = &coretypes.LegacyTx{
 			Nonce:    sig.Sequence,
 			Gas:      gas,
@@ -413,7 +440,11 @@ func (u *TxUtils) IsEthereumTx(ctx context.Context, sdkTx sdk.Tx) (bool, error)
 		return false, nil
 	}
 
+	// a signature can come without a public key if the account already has one
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		return false, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return false, nil
-- 
2.43.0


From c1b553106fc16c223538cc12ab72b2dee473b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 10/65] fix: guard the account mutex map on release

---
 jsonrpc/backend/backend.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonrpc/backend/backend.go b/jsonrpc/backend/backend.go
index c5933dd..5d3cc74 100644
--- a/jsonrpc/backend/backend.go
+++ b/jsonrpc/backend/backend.go
@@ -92,11 +92,10 @@ func (b *JSONRPCBackend) acquireAccMut(senderHex string) {
 // and decrements the reference count. If the reference count reaches zero,
 // the mutex is deleted.
 func (b *JSONRPCBackend) releaseAccMut(senderHex string) {
-	accMut := b.accMuts[senderHex]
-	accMut.mut.Unlock()
-
 	// critical section for rc and delete
 	b.mut.Lock()
+	accMut := b.accMuts[senderHex]
+	accMut.mut.Unlock()
 	accMut.rc--
 	if accMut.rc == 0 {
 		delete(b.accMuts, senderHex)
-- 
2.43.0


From c0b449bdacdb9d4e27207d6edbee9e39ba03d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 11/65] fix: do not drop new block and pending tx filters at
 the first cleanup

---
 jsonrpc/namespaces/eth/filters/api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/api.go b/jsonrpc/namespaces/eth/filters/api.go
index 092c837..ac2a359 100644
--- a/jsonrpc/namespaces/eth/filters/api.go
+++ b/jsonrpc/namespaces/eth/filters/api.go
@@ -188,9 +188,10 @@ func (api *FilterAPI) NewPendingTransactionFilter(fullTx *bool) (rpc.ID, error)
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		txs:    make([]*rpctypes.RPCTransaction, 0),
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		lastUsed: time.Now(),
+		txs:      make([]*rpctypes.RPCTransaction, 0),
+		hashes:   make([]common.Hash, 0),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
@@ -241,8 +242,9 @@ func (api *FilterAPI) NewBlockFilter() (rpc.ID, error) {
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		lastUsed: time.Now(),
+		hashes:   make([]common.Hash, 0),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
-- 
2.43.0


From 9618d893a5f0d13ac567f778cbfc928b502141fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 12/65] fix: resolve block tags in
 eth_getTransactionByBlockNumberAndIndex

---
 jsonrpc/backend/tx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index e7d4bcc..14de112 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -253,7 +253,11 @@ func (b *JSONRPCBackend) GetTransactionByBlockNumberAndIndex(blockNum rpc.BlockN
 		return nil, err
 	}
 
-	number := uint64(blockNum.Int64())
+	number, err := b.resolveBlockNr(blockNum)
+	if err != nil {
+		return nil, err
+	}
+
 	rpcTx, err := b.app.EVMIndexer().TxByBlockAndIndex(queryCtx, number, uint64(idx))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return nil, nil
-- 
2.43.0


From 1a2c2bf7af650c86da74f5ffc1636dd3e3f0a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 13/65] fix: return null for the block of an unknown hash

---
 jsonrpc/backend/block.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/block.go b/jsonrpc/backend/block.go
index c792df9..a136da0 100644
--- a/jsonrpc/backend/block.go
+++ b/jsonrpc/backend/block.go
@@ -131,7 +131,10 @@ func (b *JSONRPCBackend) GetBlockByHash(hash common.Hash, fullTx bool) (map[stri
 	}
 
 	blockNumber, err := b.app.EVMIndexer().BlockHashToNumber(queryCtx, hash)
-	if err != nil {
+	if err != nil && errors.Is(err, collections.ErrNotFound) {
+		return nil, nil
+	} else if err != nil {
+		b.logger.Error("failed to get block number by hash", "err", err)
 		return nil, err
 	}
 
-- 
2.43.0


From c875688c8249acfbabf57dacef73b4571ed18fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 14/65] fix: transfer the value of eth_call

---
 jsonrpc/backend/eth.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonrpc/backend/eth.go b/jsonrpc/backend/eth.go
index ac76657..62fd073 100644
--- a/jsonrpc/backend/eth.go
+++ b/jsonrpc/backend/eth.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"math/big"
 
+	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
@@ -81,10 +82,16 @@ func (b *JSONRPCBackend) Call(args rpctypes.TransactionArgs, blockNrOrHash *rpc.
 		contractAddr = args.To.Hex()
 	}
 
+	_, decimals, err := b.feeDenomWithDecimals()
+	if err != nil {
+		return nil, err
+	}
+
 	res, err := keeper.NewQueryServer(b.app.EVMKeeper).Call(queryCtx, &types.QueryCallRequest{
 		Sender:       sender,
 		ContractAddr: contractAddr,
 		Input:        hexutil.Encode(args.GetData()),
+		Value:        math.NewIntFromBigInt(types.FromEthersUnit(decimals, args.Value.ToInt())),
 	})
 
 	if err != nil {
-- 
2.43.0


From 566cce5e6c54f5033ee8db3f81d2d2c76acdafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 15/65] fix: guard the subscriber channels of the indexer

---
 indexer/abci.go    |  2 +-
 indexer/indexer.go | 17 ++++++++++++++---
 indexer/mempool.go |  8 ++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index ed1445f..1acf65c 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -170,7 +170,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 			return err
 		}
 
-		if len(e.logsChans) > 0 && len(receipt.Logs) > 0 {
+		if len(receipt.Logs) > 0 {
 			for idx, log := range receipt.Logs {
 				// fill in missing fields before emitting
 				log.Index = uint(idx)
diff --git a/indexer/indexer.go b/indexer/indexer.go
index 9813f0f..3f7f8fb 100644
--- a/indexer/indexer.go
+++ b/indexer/indexer.go
@@ -2,6 +2,7 @@ package indexer
 
 import (
 	"context"
+	"sync"
 
 	"cosmossdk.io/collections"
 	corestoretypes "cosmossdk.io/core/store"
@@ -70,6 +71,7 @@ type EVMIndexerImpl struct {
 	TxHashToCosmosTxHash     collections.Map[[]byte, []byte]
 	CosmosTxHashToTxHash     collections.Map[[]byte, []byte]
 
+	subscribeMut sync.RWMutex // mutex for the subscriber channels
 	blockChans   []chan *coretypes.Header
 	logsChans    []chan []*coretypes.Log
 	pendingChans []chan *rpctypes.RPCTransaction
@@ -133,6 +135,9 @@ func (e *EVMIndexerImpl) Subscribe() (chan *coretypes.Header, chan []*coretypes.
 	logsChan := make(chan []*coretypes.Log)
 	pendingChan := make(chan *rpctypes.RPCTransaction)
 
+	e.subscribeMut.Lock()
+	defer e.subscribeMut.Unlock()
+
 	e.blockChans = append(e.blockChans, blockChan)
 	e.logsChans = append(e.logsChans, logsChan)
 	e.pendingChans = append(e.pendingChans, pendingChan)
@@ -150,15 +155,21 @@ func (e *EVMIndexerImpl) blockEventsEmitter(blockEvents *blockEvents, done chan
 	if blockEvents == nil {
 		return
 	}
+
+	// do not hold the lock while sending events
+	e.subscribeMut.RLock()
+	blockChans, logsChans := e.blockChans, e.logsChans
+	e.subscribeMut.RUnlock()
+
 	for _, logs := range blockEvents.logs {
-		for _, logsChan := range e.logsChans {
+		for _, logsChan := range logsChans {
 			logsChan <- logs
 		}
 	}
-	for _, logsChan := range e.logsChans {
+	for _, logsChan := range logsChans {
 		logsChan <- []*coretypes.Log{}
 	}
-	for _, blockChan := range e.blockChans {
+	for _, blockChan := range blockChans {
 		blockChan <- blockEvents.header
 	}
 
diff --git a/indexer/mempool.go b/indexer/mempool.go
index 87a4848..61ae648 100644
--- a/indexer/mempool.go
+++ b/indexer/mempool.go
@@ -30,7 +30,11 @@ func (m *MempoolWrapper) CountTx() int {
 
 // Insert implements mempool.Mempool.
 func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
-	if len(m.indexer.pendingChans) > 0 {
+	m.indexer.subscribeMut.RLock()
+	pendingChans := m.indexer.pendingChans
+	m.indexer.subscribeMut.RUnlock()
+
+	if len(pendingChans) > 0 {
 		txUtils := evmkeeper.NewTxUtils(m.indexer.evmKeeper)
 		ethTx, _, err := txUtils.ConvertCosmosTxToEthereumTx(ctx, tx)
 		if err != nil {
@@ -44,7 +48,7 @@ func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
 			rpcTx := rpctypes.NewRPCTransaction(ethTx, common.Hash{}, 0, 0, chainId)
 
 			// emit the transaction to all pending channels
-			for _, pendingChan := range m.indexer.pendingChans {
+			for _, pendingChan := range pendingChans {
 				pendingChan <- rpcTx
 			}
 		}
-- 
2.43.0


From f76fbba0306630b600e98bc193bb6464963466fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 16/65] fix: count transaction indexes from zero

---
 indexer/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 1acf65c..5ae3210 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -78,7 +78,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		gasUsed := uint64(txResult.GasUsed)
 		cumulativeGasUsed += gasUsed
 
-		txIndex++
 		ethTxs = append(ethTxs, ethTx)
 
 		// extract logs and contract address from tx results
@@ -110,6 +109,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipts = append(receipts, &receipt)
+		txIndex++
 	}
 
 	chainId := types.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
-- 
2.43.0


From 766f4314cd1eee20348d5562bb1c51a699a4aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 17/65] fix: count log indexes within the block

---
 indexer/abci.go            |  6 ++++--
 jsonrpc/backend/filters.go |  7 +++++--
 jsonrpc/backend/tx.go      | 28 ++++++++++++++++++++++++----
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 5ae3210..d6fa415 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -148,6 +148,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 	}
 
 	blockHash := blockHeader.Hash()
+	logIndex := uint(0)
 	blockLogs := make([][]*coretypes.Log, 0, len(ethTxs))
 	for txIndex, ethTx := range ethTxs {
 		txHash := ethTx.Hash()
@@ -171,9 +172,10 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		if len(receipt.Logs) > 0 {
-			for idx, log := range receipt.Logs {
+			for _, log := range receipt.Logs {
 				// fill in missing fields before emitting
-				log.Index = uint(idx)
+				log.Index = logIndex
+				logIndex++
 				log.BlockHash = blockHash
 				log.BlockNumber = uint64(blockHeight)
 				log.TxHash = txHash
diff --git a/jsonrpc/backend/filters.go b/jsonrpc/backend/filters.go
index 98e2d53..ecce272 100644
--- a/jsonrpc/backend/filters.go
+++ b/jsonrpc/backend/filters.go
@@ -29,17 +29,20 @@ func (b *JSONRPCBackend) GetLogsByHeight(height uint64) ([]*coretypes.Log, error
 		return nil, err
 	}
 
+	// the log index is the position in the block
+	logIndex := uint(0)
 	for _, tx := range txs {
 		receipt, err := b.app.EVMIndexer().TxReceiptByHash(queryCtx, tx.Hash)
 		if err != nil {
 			return nil, err
 		}
 		logs := receipt.Logs
-		for idx, log := range logs {
+		for _, log := range logs {
 			log.BlockHash = blockHeader.Hash()
 			log.BlockNumber = height
 			log.TxHash = tx.Hash
-			log.Index = uint(idx)
+			log.Index = logIndex
+			logIndex++
 			log.TxIndex = receipt.TransactionIndex
 		}
 		blockLogs = append(blockLogs, logs...)
diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 14de112..b461b98 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -217,7 +217,24 @@ func (b *JSONRPCBackend) GetTransactionReceipt(hash common.Hash) (map[string]int
 		return nil, NewTxIndexingError()
 	}
 
-	return marshalReceipt(receipt, tx), nil
+	// the log index is the position in the block, so count the logs of the preceding transactions
+	logIndex := uint(0)
+	if tx.BlockNumber != nil && len(receipt.Logs) > 0 {
+		err = b.app.EVMIndexer().IterateBlockTxRecepts(queryCtx, tx.BlockNumber.ToInt().Uint64(), func(r *coretypes.Receipt) (bool, error) {
+			if r.TransactionIndex == receipt.TransactionIndex {
+				return true, nil
+			}
+
+			logIndex += uint(len(r.Logs))
+			return false, nil
+		})
+		if err != nil {
+			b.logger.Error("failed to iterate block receipts", "err", err)
+			return nil, NewTxIndexingError()
+		}
+	}
+
+	return marshalReceipt(receipt, tx, logIndex), nil
 }
 
 // GetTransactionByBlockHashAndIndex returns the transaction at the given block hash and index.
@@ -427,18 +444,21 @@ func (b *JSONRPCBackend) GetBlockReceipts(ctx context.Context, blockNrOrHash rpc
 		return nil, fmt.Errorf("receipts length mismatch: %d vs %d", len(txs), len(receipts))
 	}
 
+	logIndex := uint(0)
 	result := make([]map[string]interface{}, len(receipts))
 	for i, receipt := range receipts {
-		result[i] = marshalReceipt(receipt, txs[i])
+		result[i] = marshalReceipt(receipt, txs[i], logIndex)
+		logIndex += uint(len(receipt.Logs))
 	}
 
 	return result, nil
 }
 
 // marshalReceipt marshals a transaction receipt into a JSON object.
-func marshalReceipt(receipt *coretypes.Receipt, tx *rpctypes.RPCTransaction) map[string]interface{} {
+// logIndex is the position of the first log of the receipt in the block.
+func marshalReceipt(receipt *coretypes.Receipt, tx *rpctypes.RPCTransaction, logIndex uint) map[string]interface{} {
 	for idx, log := range receipt.Logs {
-		log.Index = uint(idx)
+		log.Index = logIndex + uint(idx)
 		if tx.BlockHash != nil {
 			log.BlockHash = *tx.BlockHash
 		}
-- 
2.43.0


From 8809f9fd1cc0287acaae19de08a8bef186693c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 18/65] fix: use a message of its own for each cosmos query
 conversion

---
 x/evm/types/query_cosmos.go | 38 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/x/evm/types/query_cosmos.go b/x/evm/types/query_cosmos.go
index 86210ec..4ebdab6 100644
--- a/x/evm/types/query_cosmos.go
+++ b/x/evm/types/query_cosmos.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"reflect"
+
 	"github.com/cosmos/cosmos-sdk/codec"
 	proto "github.com/cosmos/gogoproto/proto"
 
@@ -33,34 +35,36 @@ func DefaultQueryCosmosWhitelist() QueryCosmosWhitelist {
 }
 
 // ConvertProtoToJSON unmarshal the given bytes into a proto message and then marshals it to json.
+//
+// The given message only tells the type: it is shared between all executions, so the conversion
+// uses a message of its own.
 func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte) ([]byte, error) {
-	// unmarshal binary into stargate response data structure
-	err := cdc.Unmarshal(bz, protoResponse)
-	if err != nil {
-		return nil, err
-	}
+	res := newMessage(protoResponse)
 
-	bz, err = cdc.MarshalJSON(protoResponse)
-	if err != nil {
+	// unmarshal binary into stargate response data structure
+	if err := cdc.Unmarshal(bz, res); err != nil {
 		return nil, err
 	}
 
-	protoResponse.Reset()
-	return bz, nil
+	return cdc.MarshalJSON(res)
 }
 
+// ConvertJSONToProto unmarshal the given json into a proto message and then marshals it to binary.
+//
+// The given message only tells the type: it is shared between all executions, so the conversion
+// uses a message of its own.
 func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte) ([]byte, error) {
+	req := newMessage(protoRequest)
+
 	// unmarshal binary into stargate response data structure
-	err := cdc.UnmarshalJSON(bz, protoRequest)
-	if err != nil {
+	if err := cdc.UnmarshalJSON(bz, req); err != nil {
 		return nil, err
 	}
 
-	bz, err = cdc.Marshal(protoRequest)
-	if err != nil {
-		return nil, err
-	}
+	return cdc.Marshal(req)
+}
 
-	protoRequest.Reset()
-	return bz, nil
+// newMessage returns an empty message of the same type as the given message.
+func newMessage(msg proto.Message) proto.Message {
+	return reflect.New(reflect.TypeOf(msg).Elem()).Interface().(proto.Message)
 }
-- 
2.43.0


From bfa63726aefbc2cad63bd50d6bf71ddf317fd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 19/65] fix: keep the sequence number of a long address
 incremented at MsgCreate

---
 x/evm/keeper/msg_server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 48c38a7..c2f8cf6 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 
+	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
 	"github.com/ethereum/go-ethereum/core/tracing"
 	"github.com/holiman/uint256"
@@ -164,7 +165,14 @@ func takeIncrementedSequence(ctx context.Context, sender sdk.AccAddress) bool {
 
 // prepareCreateNonce restores the nonce of the sender to the one of the tx, because
 // evm increases nonce at Create by itself.
+//
+// NOTE: evm increases the nonce of the shorthand account for a long address, so the sequence
+// number of the sender has to stay incremented.
 func (ms *msgServerImpl) prepareCreateNonce(ctx context.Context, sender sdk.AccAddress) error {
+	if len(sender) != common.AddressLength {
+		return nil
+	}
+
 	if !takeIncrementedSequence(ctx, sender) {
 		return nil
 	}
-- 
2.43.0


From 42eb4130d6a796a5d2447c924efb42c1a791fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 20/65] fix: report the contract address in the erc721 created
 event

---
 x/evm/keeper/erc721.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/erc721.go b/x/evm/keeper/erc721.go
index cd184a3..0ba158a 100644
--- a/x/evm/keeper/erc721.go
+++ b/x/evm/keeper/erc721.go
@@ -59,7 +59,7 @@ func (k ERC721Keeper) CreateOrUpdateClass(ctx context.Context, classId, classUri
 			return types.ErrFailedToPackABI.Wrap(err.Error())
 		}
 
-		ret, contractAddr, _, err := k.EVMCreate(ctx, types.StdAddress, append(k.ERC721Bin, inputBz...), nil, nil)
+		_, contractAddr, _, err := k.EVMCreate(ctx, types.StdAddress, append(k.ERC721Bin, inputBz...), nil, nil)
 		if err != nil {
 			return err
 		}
@@ -79,7 +79,7 @@ func (k ERC721Keeper) CreateOrUpdateClass(ctx context.Context, classId, classUri
 			sdk.NewEvent(
 				types.EventTypeERC721Created,
 				sdk.NewAttribute(types.AttributeKeyClassId, classId),
-				sdk.NewAttribute(types.AttributeKeyContract, hexutil.Encode(ret)),
+				sdk.NewAttribute(types.AttributeKeyContract, contractAddr.String()),
 			),
 		)
 	}
-- 
2.43.0


From 31af581c294039986daeae01349750eec2481169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 21/65] fix: do not activate EIP-4762 gas rules, which never
 run a frame out of gas

---
 x/evm/types/chain_config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/types/chain_config.go b/x/evm/types/chain_config.go
index df95593..0d39ef5 100644
--- a/x/evm/types/chain_config.go
+++ b/x/evm/types/chain_config.go
@@ -32,7 +32,6 @@ func DefaultChainConfig(ctx context.Context) *params.ChainConfig {
 	shanghaiTime := uint64(0)
 	cancunTime := uint64(0)
 	pragueTime := uint64(0)
-	verkleTime := uint64(0)
 
 	return &params.ChainConfig{
 		ChainID:             chainID(ctx),
@@ -55,6 +54,7 @@ func DefaultChainConfig(ctx context.Context) *params.ChainConfig {
 		ShanghaiTime:        &shanghaiTime,
 		CancunTime:          &cancunTime,
 		PragueTime:          &pragueTime,
-		VerkleTime:          &verkleTime,
+		// EIP-4762 (verkle) must stay inactive; its interpreter charges code chunks
+		// without checking the remaining gas, so that a frame short of gas never runs out.
 	}
 }
-- 
2.43.0


From b912cacdfbe567adf477c4870089eb2ab8c2c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 22/65] fix: return the empty code hash for a contract under
 construction

---
 x/evm/state/statedb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4c76e1e..b01b773 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -400,8 +400,9 @@ func (s *StateDB) GetCodeHash(addr common.Address) common.Hash {
 		return common.Hash{}
 	}
 
+	// the code hash of a contract is not set until its construction is finished
 	cacc, ok := acc.(*evmtypes.ContractAccount)
-	if !ok {
+	if !ok || len(cacc.CodeHash) == 0 {
 		return types.EmptyCodeHash
 	}
 
-- 
2.43.0


From 897c0ecb411e752f0584c50d178a193e389fbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 23/65] fix: keep the return data of a frame across fee token
 calls

---
 x/evm/keeper/context.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index e9982b7..81655c5 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -161,7 +161,11 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	}
 
 	evm := &vm.EVM{}
-	blockContext, err := k.buildBlockContext(ctx, evm, fee)
+
+	// fee token calls need an interpreter of their own, because they happen in the
+	// middle of instructions and must not touch the return data of the running frame.
+	tokenEVM := &vm.EVM{}
+	blockContext, err := k.buildBlockContext(ctx, tokenEVM, fee)
 	if err != nil {
 		return ctx, nil, err
 	}
@@ -173,7 +177,7 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	// set cosmos messages to context before creating the state db,
 	// because the state db reverts the messages along with the state.
 	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
-	stateDB, err := k.NewStateDB(ctx, evm, fee)
+	stateDB, err := k.NewStateDB(ctx, tokenEVM, fee)
 	if err != nil {
 		return ctx, nil, err
 	}
@@ -183,15 +187,13 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	*evm = *vm.NewEVMWithPrecompiles(
-		blockContext,
-		txContext,
-		stateDB,
-		types.DefaultChainConfig(ctx),
-		vmConfig,
-		// precompiles must work on the state of the call frame which executes them
-		k.precompiles.toMap(sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_FRAME_CONTEXT, stateDB)),
-	)
+	chainConfig := types.DefaultChainConfig(ctx)
+
+	// precompiles must work on the state of the call frame which executes them
+	precompiles := k.precompiles.toMap(sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_FRAME_CONTEXT, stateDB))
+
+	*evm = *vm.NewEVMWithPrecompiles(blockContext, txContext, stateDB, chainConfig, vmConfig, precompiles)
+	*tokenEVM = *vm.NewEVMWithPrecompiles(blockContext, txContext, stateDB, chainConfig, vmConfig, precompiles)
 
 	if tracer != nil {
 		// register vm context to tracer
-- 
2.43.0


From 72e0a5b79cbb33f25ff89a75322d17c81ac138a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 24/65] fix: track the hash of a block under its own height

---
 x/evm/abci.go          | 8 ++------
 x/evm/keeper/keeper.go | 7 +++++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/x/evm/abci.go b/x/evm/abci.go
index 5a1b8db..a8a0d57 100644
--- a/x/evm/abci.go
+++ b/x/evm/abci.go
@@ -13,11 +13,7 @@ import (
 // PreBlock track latest 256 block hashes
 func PreBlock(ctx sdk.Context, k *keeper.Keeper) (sdk.ResponsePreBlock, error) {
 	defer telemetry.ModuleMeasureSince(types.ModuleName, time.Now(), telemetry.MetricKeyEndBlocker)
-	height := uint64(ctx.BlockHeight())
-	if height <= 1 {
-		return sdk.ResponsePreBlock{}, nil
-	}
 
-	// current block header hash is created by the previous block, so we track it with height-1
-	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, height-1, common.BytesToHash(ctx.HeaderHash()))
+	// the header hash of the context is the hash of the block being finalized
+	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, uint64(ctx.BlockHeight()), common.BytesToHash(ctx.HeaderHash()))
 }
diff --git a/x/evm/keeper/keeper.go b/x/evm/keeper/keeper.go
index 07e12b6..2115e3f 100644
--- a/x/evm/keeper/keeper.go
+++ b/x/evm/keeper/keeper.go
@@ -278,8 +278,11 @@ func (k Keeper) TrackBlockHash(ctx context.Context, blockHeight uint64, hash com
 	}
 
 	// keep all block hashes if `NumRetainBlockHashes` is 0
-	if num != 0 && blockHeight > num {
-		err := k.EVMBlockHashes.Remove(ctx, blockHeight-num)
+	//
+	// the hash of the block being executed is not accessible to it, so the latest
+	// `NumRetainBlockHashes` hashes before it are kept.
+	if num != 0 && blockHeight > num+1 {
+		err := k.EVMBlockHashes.Remove(ctx, blockHeight-num-1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From defb8f44b3e750d491b311bf60e0f35e02b6a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 25/65] fix: do not let users create or fund module accounts
 through their aliases

---
 x/bank/keeper/send.go        | 9 +++++++++
 x/evm/keeper/erc20_stores.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/x/bank/keeper/send.go b/x/bank/keeper/send.go
index edb8944..b5dc64d 100644
--- a/x/bank/keeper/send.go
+++ b/x/bank/keeper/send.go
@@ -13,6 +13,8 @@ import (
 	cosmosbank "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
 
+	"github.com/ethereum/go-ethereum/common"
+
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -194,7 +196,14 @@ func (k EVMSendKeeper) IsSendEnabledCoin(ctx context.Context, coin sdk.Coin) boo
 
 // BlockedAddr checks if a given address is restricted from
 // receiving funds.
+//
+// NOTE: the coins of a long address are held by its shorthand address, so it is
+// restricted whenever the shorthand address is.
 func (k EVMSendKeeper) BlockedAddr(addr sdk.AccAddress) bool {
+	if len(addr) > common.AddressLength {
+		addr = addr[len(addr)-common.AddressLength:]
+	}
+
 	return k.blockedAddrs[addr.String()]
 }
 
diff --git a/x/evm/keeper/erc20_stores.go b/x/evm/keeper/erc20_stores.go
index 8eab512..20c975e 100644
--- a/x/evm/keeper/erc20_stores.go
+++ b/x/evm/keeper/erc20_stores.go
@@ -37,8 +37,8 @@ func (k ERC20StoresKeeper) RegisterStore(ctx context.Context, addr sdk.AccAddres
 		return nil
 	}
 
-	// create account if not exists
-	if !k.accountKeeper.HasAccount(ctx, addr) {
+	// create account if not exists, but leave module accounts to their modules
+	if !k.accountKeeper.HasAccount(ctx, addr) && !k.bankKeeper.BlockedAddr(addr) {
 		k.accountKeeper.SetAccount(ctx, k.accountKeeper.NewAccountWithAddress(ctx, addr))
 	}
 
-- 
2.43.0


From df36ae381182be955ddb23d993989d75dc592c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 26/65] fix: keep the account number of an account converted to
 a shorthand account

---
 x/evm/keeper/address.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/address.go b/x/evm/keeper/address.go
index 288583c..85ae809 100644
--- a/x/evm/keeper/address.go
+++ b/x/evm/keeper/address.go
@@ -18,6 +18,7 @@ func (k Keeper) convertToEVMAddress(ctx context.Context, addr sdk.AccAddress, is
 		return common.BytesToAddress(addr.Bytes()), nil
 	}
 
+	var emptyAccount sdk.AccountI
 	shorthandAddr := common.BytesToAddress(addr.Bytes())
 	if found := k.accountKeeper.HasAccount(ctx, shorthandAddr.Bytes()); found {
 		account := k.accountKeeper.GetAccount(ctx, shorthandAddr.Bytes())
@@ -36,6 +37,8 @@ func (k Keeper) convertToEVMAddress(ctx context.Context, addr sdk.AccAddress, is
 
 			return common.Address{}, types.ErrAddressAlreadyExists.Wrapf("failed to create shorthand account of `%s`: `%s`", addr, shorthandAddr)
 		}
+
+		emptyAccount = account
 	}
 
 	if isSigner {
@@ -46,7 +49,11 @@ func (k Keeper) convertToEVMAddress(ctx context.Context, addr sdk.AccAddress, is
 		}
 
 		// register shorthand account
-		shorthandAccount.AccountNumber = k.accountKeeper.NextAccountNumber(ctx)
+		if emptyAccount != nil {
+			shorthandAccount.AccountNumber = emptyAccount.GetAccountNumber()
+		} else {
+			shorthandAccount.AccountNumber = k.accountKeeper.NextAccountNumber(ctx)
+		}
 		k.accountKeeper.SetAccount(ctx, shorthandAccount)
 	}
 
-- 
2.43.0


From fc35b9b021b369195247a1f66ef69a035f1c2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 27/65] fix: export genesis of the modules the module manager
 knows

---
 app/app.go     |  2 +-
 app/modules.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/app/app.go b/app/app.go
index c4f20e8..f3cb15c 100644
--- a/app/app.go
+++ b/app/app.go
@@ -237,7 +237,7 @@ func NewMinitiaApp(
 	app.ModuleManager.SetOrderEndBlockers(orderEndBlockers()...)
 	genesisModuleOrder := orderInitBlockers()
 	app.ModuleManager.SetOrderInitGenesis(genesisModuleOrder...)
-	app.ModuleManager.SetOrderExportGenesis(genesisModuleOrder...)
+	app.ModuleManager.SetOrderExportGenesis(orderExportGenesis()...)
 
 	// register invariants for crisis module
 	app.ModuleManager.RegisterInvariants(app.CrisisKeeper)
diff --git a/app/modules.go b/app/modules.go
index 1f21ae2..e081ef1 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -1,6 +1,8 @@
 package app
 
 import (
+	"slices"
+
 	"cosmossdk.io/x/feegrant"
 	feegrantmodule "cosmossdk.io/x/feegrant/module"
 	"cosmossdk.io/x/upgrade"
@@ -195,3 +197,11 @@ func orderInitBlockers() []string {
 		packetforwardtypes.ModuleName, forwardingtypes.ModuleName, ibchookstypes.ModuleName,
 	}
 }
+
+// orderExportGenesis is the order of genesis export; genutil is only a basic
+// module without state, the export of a module unknown to the module manager fails.
+func orderExportGenesis() []string {
+	return slices.DeleteFunc(orderInitBlockers(), func(name string) bool {
+		return name == genutiltypes.ModuleName
+	})
+}
-- 
2.43.0


From bcb07f4d51a675c071454549b5aa756401ae7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 28/65] fix: do not mint the coins of an imported EVM state
 again

---
 x/bank/keeper/genesis.go | 54 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 46694df..c2af568 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -7,6 +7,8 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/query"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 // InitGenesis initializes the bank module's state from a given genesis state.
@@ -22,21 +24,35 @@ func (k BaseKeeper) InitGenesis(ctx context.Context, genState *types.GenesisStat
 	ac := k.ak.AddressCodec()
 	totalSupply := sdk.Coins{}
 	genState.Balances = types.SanitizeGenesisBalances(genState.Balances)
+
+	// the coins of an imported EVM state are already held by its token contracts
+	imported := make(map[string]bool)
+	for _, balance := range genState.Balances {
+		if err := k.markImportedDenoms(ctx, balance.Coins, imported); err != nil {
+			panic(err)
+		}
+	}
+	if err := k.markImportedDenoms(ctx, genState.Supply, imported); err != nil {
+		panic(err)
+	}
+
 	for _, balance := range genState.Balances {
 		addr, err := ac.StringToBytes(balance.GetAddress())
 		if err != nil {
 			panic(err)
 		}
 
-		if err := k.initBalances(ctx, addr, balance.Coins); err != nil {
+		coins := withoutDenoms(balance.Coins, imported)
+		if err := k.initBalances(ctx, addr, coins); err != nil {
 			panic(fmt.Errorf("error on setting balances %w", err))
 		}
 
-		totalSupply = totalSupply.Add(balance.Coins...)
+		totalSupply = totalSupply.Add(coins...)
 	}
 
-	if !genState.Supply.Empty() && !genState.Supply.Equal(totalSupply) {
-		panic(fmt.Errorf("genesis supply is incorrect, expected %v, got %v", genState.Supply, totalSupply))
+	expectedSupply := withoutDenoms(genState.Supply, imported)
+	if !expectedSupply.Empty() && !expectedSupply.Equal(totalSupply) {
+		panic(fmt.Errorf("genesis supply is incorrect, expected %v, got %v", expectedSupply, totalSupply))
 	}
 
 	for _, meta := range genState.DenomMetadata {
@@ -59,3 +75,33 @@ func (k BaseKeeper) ExportGenesis(ctx context.Context) *types.GenesisState {
 		k.GetAllSendEnabledEntries(ctx),
 	)
 }
+
+// markImportedDenoms marks the denoms of coins whose supply already exists in the EVM state.
+func (k BaseKeeper) markImportedDenoms(ctx context.Context, coins sdk.Coins, imported map[string]bool) error {
+	for _, coin := range coins {
+		if _, checked := imported[coin.Denom]; checked {
+			continue
+		}
+
+		found, err := k.ek.HasSupply(ctx, coin.Denom)
+		if err != nil {
+			return err
+		}
+
+		imported[coin.Denom] = found && (evmtypes.IsERC20Denom(coin.Denom) || k.GetSupply(ctx, coin.Denom).IsPositive())
+	}
+
+	return nil
+}
+
+// withoutDenoms returns the non-zero coins whose denom is not in the given set.
+func withoutDenoms(coins sdk.Coins, denoms map[string]bool) sdk.Coins {
+	rest := sdk.Coins{}
+	for _, coin := range coins {
+		if !coin.IsZero() && !denoms[coin.Denom] {
+			rest = append(rest, coin)
+		}
+	}
+
+	return rest
+}
-- 
2.43.0


From 7891d25651ff0b040221ddf2717618cd369c5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 29/65] fix: list the coins of a long address once in the
 balances of all accounts

---
 x/bank/keeper/view.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index c7fdd6f..e461381 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -12,6 +12,8 @@ import (
 	cosmoskeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
 
+	"github.com/ethereum/go-ethereum/common"
+
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -134,6 +136,12 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
 	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
 		addr := account.GetAddress()
+
+		// the coins of a long address are listed with its shorthand address
+		if len(addr) > common.AddressLength {
+			return false
+		}
+
 		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
 			return cb(addr, coin), nil
 		})
-- 
2.43.0


From 36c5e9c75c26e706a065c33659c8818ff42f9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 30/65] fix: accept signatures of the chain's own keys in
 bridge hooks

---
 app/ante/ante.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/ante/ante.go b/app/ante/ante.go
index 9dcd06c..f7f3763 100644
--- a/app/ante/ante.go
+++ b/app/ante/ante.go
@@ -110,7 +110,7 @@ func CreateAnteHandlerForOPinit(ak ante.AccountKeeper, ek *evmkeeper.Keeper, sig
 	return sdk.ChainAnteDecorators(
 		ante.NewSetPubKeyDecorator(ak),
 		ante.NewValidateSigCountDecorator(ak),
-		ante.NewSigGasConsumeDecorator(ak, ante.DefaultSigVerificationGasConsumer),
+		ante.NewSigGasConsumeDecorator(ak, DefaultSigVerificationGasConsumer),
 		NewSigVerificationDecorator(ak, ek, signModeHandler),
 		ante.NewIncrementSequenceDecorator(ak),
 		NewEVMSequenceDecorator(ak),
-- 
2.43.0


From 7004c37bf658fd53eff8b738a0c6d077efac56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 31/65] fix: bound the gas a token can take when its balances
 are listed

---
 x/evm/keeper/erc20.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 7ef9ad7..c2172fd 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -9,6 +9,7 @@ import (
 	"cosmossdk.io/collections"
 	moderrors "cosmossdk.io/errors"
 	"cosmossdk.io/math"
+	storetypes "cosmossdk.io/store/types"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/query"
@@ -401,13 +402,41 @@ func (k ERC20Keeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, toA
 	return nil
 }
 
+// maxViewGas is the gas a token contract can take to tell a balance or its supply.
+const maxViewGas = storetypes.Gas(3_000_000)
+
+// viewCall asks a token contract for its state. The gas it can take is bounded, so a contract
+// which takes all it is given can not starve the listing it is a part of.
+func (k ERC20Keeper) viewCall(ctx context.Context, contractAddr common.Address, inputBz []byte) (retBz []byte, err error) {
+	sdkCtx := sdk.UnwrapSDKContext(ctx)
+	gasMeter := sdkCtx.GasMeter()
+	if gasMeter.GasRemaining() <= maxViewGas {
+		return k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	}
+
+	viewMeter := storetypes.NewGasMeter(maxViewGas)
+	defer func() {
+		if r := recover(); r != nil {
+			if _, ok := r.(storetypes.ErrorOutOfGas); !ok {
+				panic(r)
+			}
+
+			err = types.ErrEVMCallFailed.Wrap("out of gas")
+		}
+
+		gasMeter.ConsumeGas(viewMeter.GasConsumedToLimit(), "token view")
+	}()
+
+	return k.EVMStaticCall(sdkCtx.WithGasMeter(viewMeter), types.NullAddress, contractAddr, inputBz, nil)
+}
+
 func (k ERC20Keeper) balanceOf(ctx context.Context, addr, contractAddr common.Address) (math.Int, error) {
 	inputBz, err := k.ERC20ABI.Pack("balanceOf", addr)
 	if err != nil {
 		return math.ZeroInt(), types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	retBz, err := k.viewCall(ctx, contractAddr, inputBz)
 	if err != nil {
 		return math.ZeroInt(), err
 	}
@@ -431,7 +460,7 @@ func (k ERC20Keeper) totalSupply(ctx context.Context, contractAddr common.Addres
 		return math.ZeroInt(), types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	retBz, err := k.viewCall(ctx, contractAddr, inputBz)
 	if err != nil {
 		return math.ZeroInt(), err
 	}
-- 
2.43.0


From 6f6f37e088fb1690a9b218ff80dd633b56d94b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 32/65] fix: accept allowed publishers listed in any form of
 their address

---
 x/evm/keeper/msg_server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index c2f8cf6..acd5152 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"bytes"
 	"context"
 	"errors"
 
@@ -59,7 +60,12 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if len(params.AllowedPublishers) != 0 {
 		allowed := false
 		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
+			// a publisher can be listed in other forms of its address
+			publisherAddr, err := ms.ac.StringToBytes(publisher)
+			if err != nil {
+				return nil, err
+			}
+			if bytes.Equal(sender, publisherAddr) {
 				allowed = true
 
 				break
@@ -122,7 +128,12 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if len(params.AllowedPublishers) != 0 {
 		allowed := false
 		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
+			// a publisher can be listed in other forms of its address
+			publisherAddr, err := ms.ac.StringToBytes(publisher)
+			if err != nil {
+				return nil, err
+			}
+			if bytes.Equal(sender, publisherAddr) {
 				allowed = true
 
 				break
-- 
2.43.0


From 6ef9827e94edd388f15178a95c069189c92ed0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 33/65] fix: refuse fee tokens whose sudoMint and sudoBurn do
 nothing

---
 x/evm/keeper/msg_server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index acd5152..679ce75 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -310,8 +310,15 @@ func (ms *msgServerImpl) testFeeDenom(ctx context.Context, params types.Params)
 		}
 	}()
 
+	// the calls can succeed without doing anything, so check the balances as well
+	before := evm.StateDB.GetBalance(types.StdAddress)
 	evm.StateDB.AddBalance(types.StdAddress, uint256.NewInt(1), tracing.BalanceChangeUnspecified)
+	minted := evm.StateDB.GetBalance(types.StdAddress)
 	evm.StateDB.SubBalance(types.StdAddress, uint256.NewInt(1), tracing.BalanceChangeUnspecified)
+	burnt := evm.StateDB.GetBalance(types.StdAddress)
+	if !minted.Eq(new(uint256.Int).AddUint64(before, 1)) || !burnt.Eq(before) {
+		return types.ErrInvalidFeeDenom.Wrap("sudoMint and sudoBurn do not change the balance")
+	}
 
 	return nil
 }
-- 
2.43.0


From 95d1fcb111238cb7ad7513b0e1775c3df762aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 34/65] fix: refuse NFT token ids outside of uint256

---
 x/evm/types/collection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/evm/types/collection.go b/x/evm/types/collection.go
index 99a6a61..8970f0c 100644
--- a/x/evm/types/collection.go
+++ b/x/evm/types/collection.go
@@ -27,7 +27,12 @@ func TokenIdToBigInt(classId string, tokenId string) (*big.Int, bool) {
 		hash.Write([]byte(tokenId))
 		return new(big.Int).SetBytes(hash.Sum(nil)), true
 	}
-	return new(big.Int).SetString(tokenId, 10)
+
+	intTokenId, ok := new(big.Int).SetString(tokenId, 10)
+	if !ok || intTokenId.Sign() < 0 || intTokenId.BitLen() > 256 {
+		return nil, false
+	}
+	return intTokenId, true
 }
 
 func ContractAddressFromClassId(ctx context.Context, k ERC721ClassIdKeeper, classId string) (common.Address, error) {
-- 
2.43.0


From 77e42a0b08289e5bdc116f0839ed224be5a223e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 35/65] fix: do not index transactions refused by the ante
 handler

---
 indexer/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indexer/abci.go b/indexer/abci.go
index d6fa415..812bacd 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -59,6 +59,13 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		txResult := res.TxResults[idx]
+
+		// a tx refused by the ante handler emits no events. It was not executed and can
+		// still be included in a later block, so it must not take a place in this one.
+		if txResult.Code != abci.CodeTypeOK && len(txResult.Events) == 0 {
+			continue
+		}
+
 		txStatus := coretypes.ReceiptStatusSuccessful
 		if txResult.Code != abci.CodeTypeOK {
 			txStatus = coretypes.ReceiptStatusFailed
-- 
2.43.0


From 76447aeec667539bbfcc9089c69cb807adcf51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 36/65] fix: write the index before the block is committed

---
 indexer/abci.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 812bacd..6374fa2 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -22,7 +22,6 @@ import (
 )
 
 func (e *EVMIndexerImpl) ListenCommit(ctx context.Context, res abci.ResponseCommit, changeSet []*storetypes.StoreKVPair) error {
-	e.store.Write()
 	return nil
 }
 
@@ -203,6 +202,10 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		return err
 	}
 
+	// write the index before the block is committed: a node stopped in between executes the
+	// block again, but one stopped after the commit would never index it.
+	e.store.Write()
+
 	// emit block event in a goroutine
 	done := make(chan struct{})
 	go e.blockEventsEmitter(&blockEvents{header: &blockHeader, logs: blockLogs}, done)
-- 
2.43.0


From 834b4e8d154740d637438e92ee0e73d239f2e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 37/65] fix: emit block events in block order

---
 indexer/abci.go    | 12 +++++++++---
 indexer/indexer.go |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 6374fa2..8c1465c 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -206,9 +206,15 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 	// block again, but one stopped after the commit would never index it.
 	e.store.Write()
 
-	// emit block event in a goroutine
-	done := make(chan struct{})
-	go e.blockEventsEmitter(&blockEvents{header: &blockHeader, logs: blockLogs}, done)
+	// emit block event in a goroutine, after the events of the previous block
+	prev, done := e.lastEmitted, make(chan struct{})
+	e.lastEmitted = done
+	go func() {
+		if prev != nil {
+			<-prev
+		}
+		e.blockEventsEmitter(&blockEvents{header: &blockHeader, logs: blockLogs}, done)
+	}()
 	go func() {
 		select {
 		case <-done:
diff --git a/indexer/indexer.go b/indexer/indexer.go
index 3f7f8fb..9e2f8f1 100644
--- a/indexer/indexer.go
+++ b/indexer/indexer.go
@@ -75,6 +75,8 @@ type EVMIndexerImpl struct {
 	blockChans   []chan *coretypes.Header
 	logsChans    []chan []*coretypes.Log
 	pendingChans []chan *rpctypes.RPCTransaction
+
+	lastEmitted chan struct{} // closed when the events of the last block are emitted
 }
 
 func NewEVMIndexer(
-- 
2.43.0


From 3694015148ee1cd29a929119e78ef172a36c48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 38/65] fix: refuse contract call hooks on asynchronously
 acknowledged packets

---
 app/ibc-hooks/receive.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index e4a9fd8..c6350d4 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -1,6 +1,7 @@
 package evm_hooks
 
 import (
+	"errors"
 	"fmt"
 	"math/big"
 
@@ -19,6 +20,9 @@ import (
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
+// errAsyncAck is the error returned when a packet with a contract call is not acknowledged synchronously.
+var errAsyncAck = errors.New("contract call is not supported for asynchronously acknowledged packet")
+
 func (h EVMHooks) onRecvIcs20Packet(
 	ctx sdk.Context,
 	im ibchooks.IBCMiddleware,
@@ -58,7 +62,10 @@ func (h EVMHooks) onRecvIcs20Packet(
 	packet.Data = data.GetBytes()
 
 	ack := im.App.OnRecvPacket(ctx, packet, relayer)
-	if !ack.Success() {
+	if ack == nil {
+		// the application acknowledges this packet later (e.g. it is being forwarded)
+		return newEmitErrorAcknowledgement(errAsyncAck)
+	} else if !ack.Success() {
 		return ack
 	}
 
@@ -142,7 +149,10 @@ func (h EVMHooks) onRecvIcs721Packet(
 	packet.Data = data.GetBytes(packet.SourcePort)
 
 	ack := im.App.OnRecvPacket(ctx, packet, relayer)
-	if !ack.Success() {
+	if ack == nil {
+		// the application acknowledges this packet later (e.g. it is being forwarded)
+		return newEmitErrorAcknowledgement(errAsyncAck)
+	} else if !ack.Success() {
 		return ack
 	}
 
-- 
2.43.0


From 56349fc56af71ae456e8c696ad5cb2445f736d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 39/65] fix: approve received tokens to a hook contract given
 in bech32

---
 app/ibc-hooks/receive.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index c6350d4..716e92e 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -69,9 +69,14 @@ func (h EVMHooks) onRecvIcs20Packet(
 		return ack
 	}
 
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
+
 	msg.Sender = intermediateSender
 	localDenom := LocalDenom(packet, data.Denom)
-	_, err = h.approveERC20(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localDenom, data.Amount)
+	_, err = h.approveERC20(ctx, intermediateSender, contractAddr, localDenom, data.Amount)
 	if err != nil {
 		return newEmitErrorAcknowledgement(err)
 	}
@@ -156,11 +161,16 @@ func (h EVMHooks) onRecvIcs721Packet(
 		return ack
 	}
 
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
+
 	// approve the transfer of the NFT to the contract
 	msg.Sender = intermediateSender
 	localClassId := LocalClassId(packet, data.ClassId)
 	for _, tokenId := range data.TokenIds {
-		_, err = h.approveERC721(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localClassId, tokenId)
+		_, err = h.approveERC721(ctx, intermediateSender, contractAddr, localClassId, tokenId)
 		if err != nil {
 			return newEmitErrorAcknowledgement(err)
 		}
-- 
2.43.0


From 21c474c2976971281227fa2cf2e019cd91b84fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 40/65] fix: approve received evm/ tokens to the hook contract

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 716e92e..1af9b51 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -100,7 +100,7 @@ func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender string, contr
 		return nil, err
 	}
 
-	erc20Addr, err := h.evmKeeper.GetContractAddrByDenom(ctx, denom)
+	erc20Addr, err := evmtypes.DenomToContractAddr(ctx, h.evmKeeper, denom)
 	if err != nil {
 		return nil, err
 	}
@@ -200,7 +200,7 @@ func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender string, cont
 		return nil, err
 	}
 
-	erc721Addr, err := h.evmKeeper.GetContractAddrByClassId(ctx, classId)
+	erc721Addr, err := evmtypes.ContractAddressFromClassId(ctx, h.evmKeeper, classId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 94f184ae390417ff25d175236930a7b833511299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:30 +0000
Subject: [PATCH 41/65] fix: keep large async callback ids exact

---
 app/ibc-hooks/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/util.go b/app/ibc-hooks/util.go
index c589804..91564f7 100644
--- a/app/ibc-hooks/util.go
+++ b/app/ibc-hooks/util.go
@@ -96,8 +96,14 @@ func jsonStringHasKey(memo, key string) (found bool, jsonObject map[string]inter
 		return false, jsonObject
 	}
 
-	// the jsonObject must be a valid JSON object
-	err := json.Unmarshal([]byte(memo), &jsonObject)
+	// the jsonObject must be a valid JSON object; numbers are kept as they are written
+	// because float64 can't hold every uint64 (e.g. callback id).
+	if !json.Valid([]byte(memo)) {
+		return false, jsonObject
+	}
+	decoder := json.NewDecoder(strings.NewReader(memo))
+	decoder.UseNumber()
+	err := decoder.Decode(&jsonObject)
 	if err != nil {
 		return false, jsonObject
 	}
-- 
2.43.0


From 69558abf15d7dbb0bae09d19a37b36e0627897c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 42/65] fix: refuse acknowledgements with both a result and an
 error

---
 app/ibc-hooks/ack.go  |  8 ++++++++
 app/ibc-hooks/util.go | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/app/ibc-hooks/ack.go b/app/ibc-hooks/ack.go
index d68b4df..f8849a5 100644
--- a/app/ibc-hooks/ack.go
+++ b/app/ibc-hooks/ack.go
@@ -20,6 +20,10 @@ func (h EVMHooks) onAckIcs20Packet(
 	relayer sdk.AccAddress,
 	data transfertypes.FungibleTokenPacketData,
 ) error {
+	if err := validateAck(acknowledgement); err != nil {
+		return err
+	}
+
 	if err := im.App.OnAcknowledgementPacket(ctx, packet, acknowledgement, relayer); err != nil {
 		return err
 	}
@@ -99,6 +103,10 @@ func (h EVMHooks) onAckIcs721Packet(
 	relayer sdk.AccAddress,
 	data nfttransfertypes.NonFungibleTokenPacketData,
 ) error {
+	if err := validateAck(acknowledgement); err != nil {
+		return err
+	}
+
 	if err := im.App.OnAcknowledgementPacket(ctx, packet, acknowledgement, relayer); err != nil {
 		return err
 	}
diff --git a/app/ibc-hooks/util.go b/app/ibc-hooks/util.go
index 91564f7..ebf389a 100644
--- a/app/ibc-hooks/util.go
+++ b/app/ibc-hooks/util.go
@@ -128,6 +128,24 @@ func newEmitErrorAcknowledgement(err error) channeltypes.Acknowledgement {
 	}
 }
 
+// validateAck refuses an acknowledgement which carries both a result and an error, because
+// decoding it picks one of them at random.
+func validateAck(acknowledgement []byte) error {
+	var fields map[string]json.RawMessage
+	if err := json.Unmarshal(acknowledgement, &fields); err != nil {
+		// left to the application
+		return nil
+	}
+
+	_, hasResult := fields["result"]
+	_, hasError := fields["error"]
+	if hasResult && hasError {
+		return errors.Wrap(channeltypes.ErrInvalidAcknowledgement, "acknowledgement has both result and error")
+	}
+
+	return nil
+}
+
 // isAckError checks an IBC acknowledgement to see if it's an error.
 func isAckError(appCodec codec.Codec, acknowledgement []byte) bool {
 	var ack channeltypes.Acknowledgement
-- 
2.43.0


From 529ec3ac70436236a9a62bfbabe9ae6edd17f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:44 +0000
Subject: [PATCH 43/65] fix: refuse state queries of blocks to come

---
 jsonrpc/backend/tx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index b461b98..68fb174 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -121,7 +121,10 @@ func (b *JSONRPCBackend) getQueryCtxWithHeight(height uint64) (context.Context,
 	if err != nil {
 		return nil, err
 	}
-	if height >= uint64(num) {
+	if height > uint64(num) {
+		return nil, fmt.Errorf("%w: requested %d, head %d", errRequestBeyondHead, height, num)
+	}
+	if height == uint64(num) {
 		height = 0
 	}
 
-- 
2.43.0


From acf352d459cb93f632c163806424b59f05cc25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 44/65] fix: answer the earliest transaction count at the first
 block

---
 jsonrpc/backend/tx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 68fb174..efdea0d 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -178,12 +178,12 @@ func (b *JSONRPCBackend) GetTransactionCount(address common.Address, blockNrOrHa
 	if blockNumber == rpc.PendingBlockNumber {
 		queryCtx = b.app.GetContextForCheckTx(nil)
 	} else {
-		if blockNumber < 0 {
-			blockNumber = 0
+		height, err := b.resolveBlockNr(blockNumber)
+		if err != nil {
+			return nil, err
 		}
 
-		var err error
-		queryCtx, err = b.getQueryCtxWithHeight(uint64(blockNumber.Int64()))
+		queryCtx, err = b.getQueryCtxWithHeight(height)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 1c76afc79da5e174bd79830879488974b173a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 45/65] fix: use the fee token of the asked block in balance
 and call queries

---
 jsonrpc/backend/eth.go |  4 ++--
 jsonrpc/backend/gas.go | 27 ++++++++++++---------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/jsonrpc/backend/eth.go b/jsonrpc/backend/eth.go
index 62fd073..55004f9 100644
--- a/jsonrpc/backend/eth.go
+++ b/jsonrpc/backend/eth.go
@@ -26,7 +26,7 @@ func (b *JSONRPCBackend) GetBalance(address common.Address, blockNrOrHash rpc.Bl
 		return nil, err
 	}
 
-	feeDenom, decimals, err := b.feeDenomWithDecimals()
+	feeDenom, decimals, err := b.feeDenomWithDecimals(queryCtx)
 	if err != nil {
 		return nil, err
 	}
@@ -82,7 +82,7 @@ func (b *JSONRPCBackend) Call(args rpctypes.TransactionArgs, blockNrOrHash *rpc.
 		contractAddr = args.To.Hex()
 	}
 
-	_, decimals, err := b.feeDenomWithDecimals()
+	_, decimals, err := b.feeDenomWithDecimals(queryCtx)
 	if err != nil {
 		return nil, err
 	}
diff --git a/jsonrpc/backend/gas.go b/jsonrpc/backend/gas.go
index 38d0fad..10d2425 100644
--- a/jsonrpc/backend/gas.go
+++ b/jsonrpc/backend/gas.go
@@ -1,6 +1,7 @@
 package backend
 
 import (
+	"context"
 	"errors"
 	"math/big"
 
@@ -39,7 +40,12 @@ func (b *JSONRPCBackend) EstimateGas(args rpctypes.TransactionArgs, blockNrOrHas
 		return hexutil.Uint64(0), err
 	}
 
-	_, decimals, err := b.feeDenomWithDecimals()
+	queryCtx, err := b.getQueryCtx()
+	if err != nil {
+		return hexutil.Uint64(0), err
+	}
+
+	_, decimals, err := b.feeDenomWithDecimals(queryCtx)
 	if err != nil {
 		return hexutil.Uint64(0), err
 	}
@@ -90,12 +96,7 @@ func (b *JSONRPCBackend) EstimateGas(args rpctypes.TransactionArgs, blockNrOrHas
 	return hexutil.Uint64(gasInfo.GasUsed), nil
 }
 
-func (b *JSONRPCBackend) feeDenom() (string, error) {
-	queryCtx, err := b.getQueryCtx()
-	if err != nil {
-		return "", err
-	}
-
+func (b *JSONRPCBackend) feeDenom(queryCtx context.Context) (string, error) {
 	params, err := b.app.EVMKeeper.Params.Get(queryCtx)
 	if err != nil {
 		return "", err
@@ -104,13 +105,9 @@ func (b *JSONRPCBackend) feeDenom() (string, error) {
 	return params.FeeDenom, nil
 }
 
-func (b *JSONRPCBackend) feeDenomWithDecimals() (string, uint8, error) {
-	feeDenom, err := b.feeDenom()
-	if err != nil {
-		return "", 0, err
-	}
-
-	queryCtx, err := b.getQueryCtx()
+// feeDenomWithDecimals returns the fee denom and its decimals at the block of the given query context.
+func (b *JSONRPCBackend) feeDenomWithDecimals(queryCtx context.Context) (string, uint8, error) {
+	feeDenom, err := b.feeDenom(queryCtx)
 	if err != nil {
 		return "", 0, err
 	}
@@ -134,7 +131,7 @@ func (b *JSONRPCBackend) GasPrice() (*hexutil.Big, error) {
 		return nil, err
 	}
 
-	feeDenom, decimals, err := b.feeDenomWithDecimals()
+	feeDenom, decimals, err := b.feeDenomWithDecimals(queryCtx)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 70b2859b92feb86132804081e885655d81c5ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 46/65] fix: tell no receipts of unknown blocks

---
 jsonrpc/backend/tx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index efdea0d..a22d419 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -433,6 +433,12 @@ func (b *JSONRPCBackend) GetBlockReceipts(ctx context.Context, blockNrOrHash rpc
 		return nil, err
 	}
 
+	// an unknown block has no receipts to tell
+	header, err := b.GetHeaderByNumber(rpc.BlockNumber(blockNumber))
+	if err != nil || header == nil {
+		return nil, err
+	}
+
 	txs, err := b.getBlockTransactions(blockNumber)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c1ae7347b1069b3ebdb8b2b65a10fcf0b54b0b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 47/65] fix: tell the chain's base fees in the fee history

---
 jsonrpc/backend/feehistory.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/jsonrpc/backend/feehistory.go b/jsonrpc/backend/feehistory.go
index ee25fff..62269f2 100644
--- a/jsonrpc/backend/feehistory.go
+++ b/jsonrpc/backend/feehistory.go
@@ -9,12 +9,10 @@ import (
 	"sync/atomic"
 
 	"github.com/ethereum/go-ethereum/common"
-	"github.com/ethereum/go-ethereum/consensus/misc/eip1559"
 	coretypes "github.com/ethereum/go-ethereum/core/types"
 	"github.com/ethereum/go-ethereum/rpc"
 
 	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 const (
@@ -167,7 +165,11 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 		}
 		i := fees.blockNumber - oldestBlock
 		if fees.results.baseFee != nil {
-			reward[i], baseFee[i], baseFee[i+1], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.nextBaseFee, fees.results.gasUsedRatio
+			reward[i], baseFee[i], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.gasUsedRatio
+			// the results come in any order, keep the base fee of the next block if it is known already
+			if baseFee[i+1] == nil {
+				baseFee[i+1] = fees.results.nextBaseFee
+			}
 			blobGasUsedRatio[i], blobBaseFee[i], blobBaseFee[i+1] = fees.results.blobGasUsedRatio, fees.results.blobBaseFee, fees.results.nextBlobBaseFee
 		} else {
 			// getting no block and no error means we are requesting into the future (might happen because of a reorg)
@@ -226,19 +228,12 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 // the block field filled in, retrieves the block from the backend if not present yet and
 // fills in the rest of the fields.
 func (b *JSONRPCBackend) processBlock(bf *blockFees, percentiles []float64) {
-	ctx, err := b.app.CreateQueryContext(0, false)
-	if err != nil {
-		bf.err = err
-		return
-	}
-
-	config := evmtypes.DefaultChainConfig(ctx)
-
 	// Fill in base fee and next base fee.
 	if bf.results.baseFee = bf.header.BaseFee; bf.results.baseFee == nil {
 		bf.results.baseFee = new(big.Int)
 	}
-	bf.results.nextBaseFee = eip1559.CalcBaseFee(config, bf.header)
+	// the base fee is a chain parameter which does not follow the gas usage
+	bf.results.nextBaseFee = bf.results.baseFee
 	bf.results.blobBaseFee = new(big.Int)
 	bf.results.nextBlobBaseFee = new(big.Int)
 
-- 
2.43.0


From 0930207ae8820e2ea23c37efb53597ae7524a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 48/65] fix: keep waiting transactions of a sender apart from
 the submitted one

---
 jsonrpc/backend/tx.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index a22d419..6920933 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -91,13 +91,24 @@ func (b *JSONRPCBackend) SendTx(tx *coretypes.Transaction) error {
 	for {
 		cacheKey := fmt.Sprintf("%s-%d", senderHex, accSeq)
 		if txBytes, ok := b.queuedTxs.Get(cacheKey); ok {
-			_ = b.queuedTxs.Remove(cacheKey)
-
 			b.logger.Debug("broadcast queued tx", "sender", senderHex, "txSeq", accSeq)
 			res, err := b.clientCtx.BroadcastTxSync(txBytes)
+			if err != nil && accSeq != txSeq {
+				// the mempool did not take a tx queued by an earlier request; it stays
+				// queued, and the submitted tx is queued or sent already.
+				b.logger.Error("failed to broadcast queued tx", "sender", senderHex, "txSeq", accSeq, "err", err)
+				return nil
+			}
+
+			_ = b.queuedTxs.Remove(cacheKey)
 			if err != nil {
 				return err
 			}
+			if res.Code != 0 && accSeq != txSeq {
+				// the failure of a tx queued by an earlier request is not one of the submitted tx.
+				b.logger.Error("queued tx failed", "sender", senderHex, "txSeq", accSeq, "code", res.Code, "log", res.RawLog)
+				return nil
+			}
 			if res.Code != 0 {
 				return sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
 			}
-- 
2.43.0


From 9350d6c76ba80fdc32ecf46292eef52290954b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 49/65] fix: answer a query of the head block from that block

The height of a query of the head was dropped, so that the query was
answered from the next block when that was committed meanwhile.
---
 jsonrpc/backend/tx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index 6920933..c1676e7 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -135,8 +135,11 @@ func (b *JSONRPCBackend) getQueryCtxWithHeight(height uint64) (context.Context,
 	if height > uint64(num) {
 		return nil, fmt.Errorf("%w: requested %d, head %d", errRequestBeyondHead, height, num)
 	}
-	if height == uint64(num) {
-		height = 0
+
+	// the node tells a new block before the app has committed it. Name the height: asking
+	// for the latest would answer from the next block if that is committed meanwhile.
+	if last := uint64(b.app.LastBlockHeight()); height > last {
+		height = last
 	}
 
 	return b.app.CreateQueryContext(int64(height), false)
-- 
2.43.0


From d996ab8858872a9259b207c2773b879376fc1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 50/65] fix: do not write the list of precompiles into
 go-ethereum's own

Appending to the package-wide list wrote into its spare room, from every
execution at once: queries raced with each other and with blocks.
---
 x/evm/keeper/context.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 81655c5..394d00c 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"math/big"
+	"slices"
 
 	"github.com/holiman/uint256"
 
@@ -218,7 +219,7 @@ func (k Keeper) EVMStaticCallWithTracer(ctx context.Context, caller common.Addre
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	gasBalance := k.computeGasLimit(sdkCtx)
 	rules := evm.ChainConfig().Rules(evm.Context.BlockNumber, evm.Context.Random != nil, evm.Context.Time)
-	evm.StateDB.Prepare(rules, caller, types.NullAddress, &contractAddr, append(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()...), accessList)
+	evm.StateDB.Prepare(rules, caller, types.NullAddress, &contractAddr, slices.Concat(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()), accessList)
 
 	retBz, gasRemaining, err := evm.StaticCall(
 		vm.AccountRef(caller),
@@ -256,7 +257,7 @@ func (k Keeper) EVMCallWithTracer(ctx context.Context, caller common.Address, co
 	}
 
 	rules := evm.ChainConfig().Rules(evm.Context.BlockNumber, evm.Context.Random != nil, evm.Context.Time)
-	evm.StateDB.Prepare(rules, caller, types.NullAddress, &contractAddr, append(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()...), accessList)
+	evm.StateDB.Prepare(rules, caller, types.NullAddress, &contractAddr, slices.Concat(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()), accessList)
 
 	retBz, gasRemaining, err := evm.Call(
 		vm.AccountRef(caller),
@@ -348,7 +349,7 @@ func (k Keeper) EVMCreateWithTracer(ctx context.Context, caller common.Address,
 	}
 
 	rules := evm.ChainConfig().Rules(evm.Context.BlockNumber, evm.Context.Random != nil, evm.Context.Time)
-	evm.StateDB.Prepare(rules, caller, types.NullAddress, nil, append(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()...), accessList)
+	evm.StateDB.Prepare(rules, caller, types.NullAddress, nil, slices.Concat(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()), accessList)
 
 	var gasRemaining uint64
 	if salt == nil {
-- 
2.43.0


From 8ce61eee5d3802b961ec6e1022d39b8c408ab22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:21 +0000
Subject: [PATCH 51/65] fix: give the forwarding keeper its transfer keeper

It was made before the transfer keeper and kept a nil one, so that the
first automatic forward, which anyone can cause on a chain with an open
transfer channel, panicked at the end of the block and halted the chain.
---
 app/keepers/keepers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/keepers/keepers.go b/app/keepers/keepers.go
index af88de6..c842744 100644
--- a/app/keepers/keepers.go
+++ b/app/keepers/keepers.go
@@ -371,6 +371,7 @@ func NewAppKeeper(
 			authorityAddr,
 		)
 		appKeepers.TransferKeeper = &transferKeeper
+		appKeepers.ForwardingKeeper.SetIBCKeepers(appKeepers.IBCKeeper.ChannelKeeper, appKeepers.TransferKeeper)
 		transferStack = ibctransfer.NewIBCModule(*appKeepers.TransferKeeper)
 
 		// forwarding middleware
-- 
2.43.0


From 63139d35a732622af8d2e15d7ae71d792dea2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:57 +0000
Subject: [PATCH 52/65] fix: bound what automatic forwards run at the end of a
 block

They run the contracts of any token on the account, without anyone paying for their gas: one of
them could halt the chain or make a block take forever.
---
 app/forwarding.go         | 40 ++++++++++++++++++++++++++++++++
 app/keepers/forwarding.go | 49 +++++++++++++++++++++++++++++++++++++++
 app/keepers/keepers.go    |  2 +-
 app/modules.go            |  2 +-
 4 files changed, 91 insertions(+), 2 deletions(-)
 create mode 100644 app/forwarding.go
 create mode 100644 app/keepers/forwarding.go

diff --git a/app/forwarding.go b/app/forwarding.go
new file mode 100644
index 0000000..6c8f6db
--- /dev/null
+++ b/app/forwarding.go
@@ -0,0 +1,40 @@
+package app
+
+import (
+	"context"
+
+	"cosmossdk.io/core/appmodule"
+	storetypes "cosmossdk.io/store/types"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
+
+	forwarding "github.com/noble-assets/forwarding/v2/x/forwarding"
+)
+
+// maxBlockForwardGas is the gas the automatic forwards of a block can take together.
+const maxBlockForwardGas = storetypes.Gas(50_000_000)
+
+var _ appmodule.HasEndBlocker = forwardingModule{}
+
+// forwardingModule bounds the automatic forwards at the end of a block. They ask and move any
+// number of tokens, whose contracts are run without anyone paying for their gas. Forwards
+// beyond the bound are left to MsgClearAccount.
+type forwardingModule struct {
+	forwarding.AppModule
+}
+
+func (m forwardingModule) EndBlock(ctx context.Context) error {
+	sdkCtx := sdk.UnwrapSDKContext(ctx)
+
+	defer func() {
+		if r := recover(); r != nil {
+			if _, ok := r.(storetypes.ErrorOutOfGas); !ok {
+				panic(r)
+			}
+
+			sdkCtx.Logger().Error("automatic forwards were cut short", "gas", maxBlockForwardGas)
+		}
+	}()
+
+	return m.AppModule.EndBlock(sdkCtx.WithGasMeter(storetypes.NewGasMeter(maxBlockForwardGas)))
+}
diff --git a/app/keepers/forwarding.go b/app/keepers/forwarding.go
new file mode 100644
index 0000000..cf62c75
--- /dev/null
+++ b/app/keepers/forwarding.go
@@ -0,0 +1,49 @@
+package keepers
+
+import (
+	"context"
+
+	errorsmod "cosmossdk.io/errors"
+	storetypes "cosmossdk.io/store/types"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
+
+	ibctransfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
+)
+
+// maxForwardGas is the gas an automatic forward of one coin can take.
+const maxForwardGas = storetypes.Gas(3_000_000)
+
+type transferKeeperForForwarding interface {
+	Transfer(ctx context.Context, msg *ibctransfertypes.MsgTransfer) (*ibctransfertypes.MsgTransferResponse, error)
+}
+
+// forwardTransferKeeper makes the transfers of automatic forwards, which happen at the end of
+// a block where nobody pays for gas and a panic would halt the chain. As they run the contracts
+// of the tokens, a transfer is given limited gas, and has no effect unless it succeeds.
+type forwardTransferKeeper struct {
+	tk transferKeeperForForwarding
+}
+
+func (k forwardTransferKeeper) Transfer(ctx context.Context, msg *ibctransfertypes.MsgTransfer) (res *ibctransfertypes.MsgTransferResponse, err error) {
+	sdkCtx := sdk.UnwrapSDKContext(ctx)
+	gasMeter := storetypes.NewGasMeter(min(maxForwardGas, sdkCtx.GasMeter().GasRemaining()))
+
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, errorsmod.Wrapf(sdkerrors.ErrPanic, "%v", r)
+		}
+
+		sdkCtx.GasMeter().ConsumeGas(gasMeter.GasConsumedToLimit(), "automatic forward")
+	}()
+
+	cacheCtx, write := sdkCtx.WithGasMeter(gasMeter).CacheContext()
+	res, err = k.tk.Transfer(cacheCtx, msg)
+	if err != nil {
+		return nil, err
+	}
+
+	write()
+	return res, nil
+}
diff --git a/app/keepers/keepers.go b/app/keepers/keepers.go
index c842744..b01a5c5 100644
--- a/app/keepers/keepers.go
+++ b/app/keepers/keepers.go
@@ -371,7 +371,7 @@ func NewAppKeeper(
 			authorityAddr,
 		)
 		appKeepers.TransferKeeper = &transferKeeper
-		appKeepers.ForwardingKeeper.SetIBCKeepers(appKeepers.IBCKeeper.ChannelKeeper, appKeepers.TransferKeeper)
+		appKeepers.ForwardingKeeper.SetIBCKeepers(appKeepers.IBCKeeper.ChannelKeeper, forwardTransferKeeper{appKeepers.TransferKeeper})
 		transferStack = ibctransfer.NewIBCModule(*appKeepers.TransferKeeper)
 
 		// forwarding middleware
diff --git a/app/modules.go b/app/modules.go
index e081ef1..467c85a 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -115,7 +115,7 @@ func appModules(
 		solomachine.NewAppModule(),
 		packetforward.NewAppModule(app.PacketForwardKeeper, nil),
 		ibchooks.NewAppModule(app.appCodec, *app.IBCHooksKeeper),
-		forwarding.NewAppModule(app.ForwardingKeeper),
+		forwardingModule{forwarding.NewAppModule(app.ForwardingKeeper)},
 		// connect modules
 		oracle.NewAppModule(app.appCodec, *app.OracleKeeper),
 		marketmap.NewAppModule(app.appCodec, app.MarketMapKeeper),
-- 
2.43.0


From 0494d77e721c5c2fcf09fbb50f2132b41b7ec445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 53/65] fix: charge an execution that ends in an exceptional
 halt

The gas it had used up was not counted, so that its sender got the fee for it back.
---
 x/evm/keeper/context.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 394d00c..642d983 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"context"
 	"encoding/json"
+	"math"
 	"math/big"
 	"slices"
 
@@ -267,8 +268,8 @@ func (k Keeper) EVMCallWithTracer(ctx context.Context, caller common.Address, co
 		value,
 	)
 
-	// evm sometimes return 0 gasRemaining, but it's not an out of gas error.
-	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas {
+	// an exceptional halt uses up all gas, which cannot be counted if there is no limit.
+	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas && gasBalance > math.MaxInt64 {
 		return nil, nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
 
@@ -369,8 +370,8 @@ func (k Keeper) EVMCreateWithTracer(ctx context.Context, caller common.Address,
 		)
 	}
 
-	// evm sometimes return 0 gasRemaining, but it's not an out of gas error.
-	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas {
+	// an exceptional halt uses up all gas, which cannot be counted if there is no limit.
+	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas && gasBalance > math.MaxInt64 {
 		return nil, common.Address{}, nil, types.ErrEVMCreateFailed.Wrap(err.Error())
 	}
 
-- 
2.43.0


From 6f4a8f2c91b4c79484ba3bbac269f3c25bb19d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:13 +0000
Subject: [PATCH 54/65] fix: charge for the input of a precompile before
 decoding it

The work for an input was done even if the call could not pay for it.
---
 x/evm/precompiles/cosmos/contract.go         | 10 +++++-----
 x/evm/precompiles/erc20_registry/contract.go |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/x/evm/precompiles/cosmos/contract.go b/x/evm/precompiles/cosmos/contract.go
index d4f699e..0a8c914 100644
--- a/x/evm/precompiles/cosmos/contract.go
+++ b/x/evm/precompiles/cosmos/contract.go
@@ -101,6 +101,11 @@ func (e CosmosPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppl
 		}
 	}()
 
+	ctx := types.FrameContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
+
+	// charge input gas
+	ctx.GasMeter().ConsumeGas(storetypes.Gas(len(input))*GAS_PER_BYTE, "input bytes")
+
 	method, err := e.ABI.MethodById(input)
 	if err != nil {
 		return nil, 0, types.ErrPrecompileFailed.Wrap(err.Error())
@@ -111,11 +116,6 @@ func (e CosmosPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppl
 		return nil, 0, types.ErrPrecompileFailed.Wrap(err.Error())
 	}
 
-	ctx := types.FrameContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
-
-	// charge input gas
-	ctx.GasMeter().ConsumeGas(storetypes.Gas(len(input))*GAS_PER_BYTE, "input bytes")
-
 	switch method.Name {
 	case METHOD_IS_BLOCKED_ADDRESS:
 		ctx.GasMeter().ConsumeGas(IS_BLOCKED_ADDRESS_GAS, "is_blocked_address")
diff --git a/x/evm/precompiles/erc20_registry/contract.go b/x/evm/precompiles/erc20_registry/contract.go
index 704843b..b7e69af 100644
--- a/x/evm/precompiles/erc20_registry/contract.go
+++ b/x/evm/precompiles/erc20_registry/contract.go
@@ -59,6 +59,9 @@ func (e ERC20RegistryPrecompile) ExtendedRun(caller vm.ContractRef, input []byte
 		}
 	}()
 
+	ctx := types.FrameContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
+	ctx.GasMeter().ConsumeGas(storetypes.Gas(len(input))*GAS_PER_BYTE, "input bytes")
+
 	method, err := e.ABI.MethodById(input)
 	if err != nil {
 		return nil, 0, types.ErrPrecompileFailed.Wrap(err.Error())
@@ -69,9 +72,6 @@ func (e ERC20RegistryPrecompile) ExtendedRun(caller vm.ContractRef, input []byte
 		return nil, 0, types.ErrPrecompileFailed.Wrap(err.Error())
 	}
 
-	ctx := types.FrameContext(e.ctx).WithGasMeter(storetypes.NewGasMeter(suppliedGas))
-	ctx.GasMeter().ConsumeGas(storetypes.Gas(len(input))*GAS_PER_BYTE, "input bytes")
-
 	switch method.Name {
 	case METHOD_REGISTER:
 		ctx.GasMeter().ConsumeGas(REGISTER_GAS, "register_erc20")
-- 
2.43.0


From bfd5eaf43f9b3da43e67b76683eb315836700653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 55/65] fix: fold the cache layer of a finished call into its
 caller's

Each call left a cache layer behind for the rest of the execution, which all later reads had to go
through: the time an execution took grew with the square of its gas.
---
 x/evm/keeper/context.go | 26 +++++++++++++++++++++++++-
 x/evm/state/statedb.go  | 24 ++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 642d983..8508df1 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -185,7 +185,7 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	}
 
 	vmConfig := vm.Config{
-		Tracer:    tracer,
+		Tracer:    frameHooks(stateDB, tracer),
 		ExtraEips: extraEIPs,
 	}
 
@@ -205,6 +205,30 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	return ctx, evm, nil
 }
 
+// frameHooks lets the state db know about call frames, and the tracer too if there is one.
+func frameHooks(stateDB *evmstate.StateDB, tracer *tracing.Hooks) *tracing.Hooks {
+	hooks := tracing.Hooks{}
+	if tracer != nil {
+		hooks = *tracer
+	}
+
+	onEnter, onExit := hooks.OnEnter, hooks.OnExit
+	hooks.OnEnter = func(depth int, typ byte, from common.Address, to common.Address, input []byte, gas uint64, value *big.Int) {
+		stateDB.EnterFrame()
+		if onEnter != nil {
+			onEnter(depth, typ, from, to, input, gas, value)
+		}
+	}
+	hooks.OnExit = func(depth int, output []byte, gasUsed uint64, err error, reverted bool) {
+		stateDB.ExitFrame()
+		if onExit != nil {
+			onExit(depth, output, gasUsed, err, reverted)
+		}
+	}
+
+	return &hooks
+}
+
 // EVMStaticCall executes an EVM call with the given input data in static mode.
 func (k Keeper) EVMStaticCall(ctx context.Context, caller common.Address, contractAddr common.Address, inputBz []byte, accessList coretype.AccessList) ([]byte, error) {
 	return k.EVMStaticCallWithTracer(ctx, caller, contractAddr, inputBz, accessList, nil)
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index b01b773..204007e 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -55,6 +55,9 @@ type StateDB struct {
 	// Snapshot stack
 	snaps []*Snapshot
 
+	// number of snapshots at the entry of each running call frame
+	frames []int
+
 	// cosmos messages collected during the execution, nil if there is no collector in the context
 	messages *[]sdk.Msg
 }
@@ -610,6 +613,27 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	s.snaps = s.snaps[:i+1]
 }
 
+// EnterFrame must be called when a call frame is entered.
+func (s *StateDB) EnterFrame() {
+	s.frames = append(s.frames, len(s.snaps))
+}
+
+// ExitFrame must be called when a call frame has ended. Nothing can revert to the snapshots
+// taken in the frame any more, so they are folded into the one of the calling frame. Otherwise
+// each call would leave one more cache layer, which all later reads have to go through.
+func (s *StateDB) ExitFrame() {
+	last := len(s.frames) - 1
+	numSnaps := max(s.frames[last], 1)
+	s.frames = s.frames[:last]
+
+	for i := len(s.snaps) - 1; i >= numSnaps; i-- {
+		s.snaps[i].Commit()
+		s.ctx = s.snaps[i-1].ctx
+		s.snaps[i] = nil
+		s.snaps = s.snaps[:i]
+	}
+}
+
 // Prepare handles the preparatory steps for executing a state transition with.
 // This method must be invoked before state transition.
 //
-- 
2.43.0


From 4549d5c7ab6a96690ad1ddca76676521c01775a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:00 +0000
Subject: [PATCH 56/65] fix: charge an execution that ends in a panic

The gas it had used up was not counted, like that of an exceptional halt.
---
 x/evm/keeper/context.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index 8508df1..39c585d 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -229,6 +229,18 @@ func frameHooks(stateDB *evmstate.StateDB, tracer *tracing.Hooks) *tracing.Hooks
 	return &hooks
 }
 
+// chargePanic makes an execution which panics use up all gas, like an exceptional halt. It must
+// be deferred.
+func chargePanic(sdkCtx sdk.Context) {
+	if r := recover(); r != nil {
+		if gasRemaining := sdkCtx.GasMeter().GasRemaining(); gasRemaining <= math.MaxInt64 {
+			sdkCtx.GasMeter().ConsumeGas(gasRemaining, "EVM panic")
+		}
+
+		panic(r)
+	}
+}
+
 // EVMStaticCall executes an EVM call with the given input data in static mode.
 func (k Keeper) EVMStaticCall(ctx context.Context, caller common.Address, contractAddr common.Address, inputBz []byte, accessList coretype.AccessList) ([]byte, error) {
 	return k.EVMStaticCallWithTracer(ctx, caller, contractAddr, inputBz, accessList, nil)
@@ -246,6 +258,7 @@ func (k Keeper) EVMStaticCallWithTracer(ctx context.Context, caller common.Addre
 	rules := evm.ChainConfig().Rules(evm.Context.BlockNumber, evm.Context.Random != nil, evm.Context.Time)
 	evm.StateDB.Prepare(rules, caller, types.NullAddress, &contractAddr, slices.Concat(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()), accessList)
 
+	defer chargePanic(sdkCtx)
 	retBz, gasRemaining, err := evm.StaticCall(
 		vm.AccountRef(caller),
 		contractAddr,
@@ -284,6 +297,7 @@ func (k Keeper) EVMCallWithTracer(ctx context.Context, caller common.Address, co
 	rules := evm.ChainConfig().Rules(evm.Context.BlockNumber, evm.Context.Random != nil, evm.Context.Time)
 	evm.StateDB.Prepare(rules, caller, types.NullAddress, &contractAddr, slices.Concat(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()), accessList)
 
+	defer chargePanic(sdkCtx)
 	retBz, gasRemaining, err := evm.Call(
 		vm.AccountRef(caller),
 		contractAddr,
@@ -376,6 +390,7 @@ func (k Keeper) EVMCreateWithTracer(ctx context.Context, caller common.Address,
 	rules := evm.ChainConfig().Rules(evm.Context.BlockNumber, evm.Context.Random != nil, evm.Context.Time)
 	evm.StateDB.Prepare(rules, caller, types.NullAddress, nil, slices.Concat(vm.ActivePrecompiles(rules), k.precompiles.toAddrs()), accessList)
 
+	defer chargePanic(sdkCtx)
 	var gasRemaining uint64
 	if salt == nil {
 		retBz, contractAddr, gasRemaining, err = evm.Create(
-- 
2.43.0


From 348672ed608a8587a4b1a86d37aa9dc6bdf0ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 57/65] fix: charge execute_cosmos for the depth of its message

A message in a message is decoded again at each level: deep nesting made a call of some thousand
gas work for minutes.
---
 x/evm/precompiles/cosmos/contract.go | 26 ++++++++++++++++++++++++++
 x/evm/precompiles/cosmos/types.go    |  3 +++
 2 files changed, 29 insertions(+)

diff --git a/x/evm/precompiles/cosmos/contract.go b/x/evm/precompiles/cosmos/contract.go
index 0a8c914..279ef1d 100644
--- a/x/evm/precompiles/cosmos/contract.go
+++ b/x/evm/precompiles/cosmos/contract.go
@@ -86,6 +86,27 @@ func (e CosmosPrecompile) originAddress(ctx context.Context, addrBz []byte) (sdk
 	return addrBz, nil
 }
 
+// jsonDepth returns how deep the objects and arrays of a json text are nested.
+func jsonDepth(text string) (depth storetypes.Gas) {
+	level, quoted := storetypes.Gas(0), false
+	for i := 0; i < len(text); i++ {
+		switch c := text[i]; {
+		case quoted && c == '\\':
+			i++
+		case c == '"':
+			quoted = !quoted
+		case quoted:
+		case c == '{' || c == '[':
+			level++
+			depth = max(depth, level)
+		case (c == '}' || c == ']') && level > 0:
+			level--
+		}
+	}
+
+	return depth
+}
+
 // ExtendedRun implements vm.ExtendedPrecompiledContract.
 func (e CosmosPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppliedGas uint64, readOnly bool) (resBz []byte, usedGas uint64, err error) {
 	defer func() {
@@ -214,6 +235,11 @@ func (e CosmosPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppl
 			return nil, ctx.GasMeter().GasConsumedToLimit(), types.ErrPrecompileFailed.Wrap(err.Error())
 		}
 
+		// nested messages are decoded again at each level
+		if depth := jsonDepth(executeCosmosArguments.Msg); depth > FREE_JSON_DEPTH {
+			ctx.GasMeter().ConsumeGas(storetypes.Gas(len(executeCosmosArguments.Msg))*(depth-FREE_JSON_DEPTH)*GAS_PER_BYTE, "nested messages")
+		}
+
 		var sdkMsg sdk.Msg
 		if err := e.cdc.UnmarshalInterfaceJSON([]byte(executeCosmosArguments.Msg), &sdkMsg); err != nil {
 			return nil, ctx.GasMeter().GasConsumedToLimit(), types.ErrPrecompileFailed.Wrap(err.Error())
diff --git a/x/evm/precompiles/cosmos/types.go b/x/evm/precompiles/cosmos/types.go
index c1e88f0..913f8a0 100644
--- a/x/evm/precompiles/cosmos/types.go
+++ b/x/evm/precompiles/cosmos/types.go
@@ -60,6 +60,9 @@ const (
 	EXECUTE_COSMOS_GAS storetypes.Gas = 200
 	QUERY_COSMOS_GAS   storetypes.Gas = 200
 	GAS_PER_BYTE       storetypes.Gas = 1
+
+	// FREE_JSON_DEPTH is how deep the json of a message is nested if it contains no other messages.
+	FREE_JSON_DEPTH storetypes.Gas = 4
 )
 
 const (
-- 
2.43.0


From b9a8ce9ee6b6538adc4a95491594a6a9fa6defe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 58/65] fix: do not read txs the ante handler refused when
 indexing a block

---
 indexer/abci.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 8c1465c..57868c1 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -41,6 +41,15 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 	ethTxs := make([]*coretypes.Transaction, 0, len(req.Txs))
 	receipts := make([]*coretypes.Receipt, 0, len(req.Txs))
 	for idx, txBytes := range req.Txs {
+		txResult := res.TxResults[idx]
+
+		// a tx refused by the ante handler emits no events. It was not executed and can
+		// still be included in a later block, so it must not take a place in this one,
+		// and its envelope may be malformed in ways that make reading it panic.
+		if txResult.Code != abci.CodeTypeOK && len(txResult.Events) == 0 {
+			continue
+		}
+
 		tx, err := e.txConfig.TxDecoder()(txBytes)
 		if err != nil {
 			e.logger.Error("failed to decode tx", "err", err)
@@ -57,14 +66,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 			continue
 		}
 
-		txResult := res.TxResults[idx]
-
-		// a tx refused by the ante handler emits no events. It was not executed and can
-		// still be included in a later block, so it must not take a place in this one.
-		if txResult.Code != abci.CodeTypeOK && len(txResult.Events) == 0 {
-			continue
-		}
-
 		txStatus := coretypes.ReceiptStatusSuccessful
 		if txResult.Code != abci.CodeTypeOK {
 			txStatus = coretypes.ReceiptStatusFailed
-- 
2.43.0


From 2c22099716d7d99e62bf84d9c8ea05652c6d3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 59/65] fix: answer eth_feeHistory while the head block is not
 indexed

---
 jsonrpc/backend/errors.go     | 1 +
 jsonrpc/backend/feehistory.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/jsonrpc/backend/errors.go b/jsonrpc/backend/errors.go
index 0719c7d..c7d2c98 100644
--- a/jsonrpc/backend/errors.go
+++ b/jsonrpc/backend/errors.go
@@ -43,4 +43,5 @@ func (e *InternalError) ErrorCode() int {
 var (
 	errInvalidPercentile = errors.New("invalid reward percentile")
 	errRequestBeyondHead = errors.New("request beyond head block")
+	errHeadNotIndexed    = errors.New("head block is not indexed yet")
 )
diff --git a/jsonrpc/backend/feehistory.go b/jsonrpc/backend/feehistory.go
index 62269f2..ce87822 100644
--- a/jsonrpc/backend/feehistory.go
+++ b/jsonrpc/backend/feehistory.go
@@ -200,6 +200,9 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 	// Get the chain's current head.
 	if headBlock, err = b.GetHeaderByNumber(rpc.LatestBlockNumber); err != nil {
 		return 0, 0, err
+	} else if headBlock == nil {
+		// the node tells a new block before it is indexed
+		return 0, 0, errHeadNotIndexed
 	}
 	head := rpc.BlockNumber(headBlock.Number.Uint64())
 
-- 
2.43.0


From 5a3dfcacf05ab91c484cef7da69fbe5ef704bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 60/65] fix: do not let a client which reads nothing stall the
 event loop

---
 .../namespaces/eth/filters/subscriptions.go   | 111 +++++++++++++++++-
 1 file changed, 106 insertions(+), 5 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/subscriptions.go b/jsonrpc/namespaces/eth/filters/subscriptions.go
index 39ff28c..d7dad43 100644
--- a/jsonrpc/namespaces/eth/filters/subscriptions.go
+++ b/jsonrpc/namespaces/eth/filters/subscriptions.go
@@ -30,6 +30,87 @@ type subscription struct {
 	unsubOnce sync.Once
 }
 
+// maxNotificationBacklog is the number of notifications a client can be behind
+// before its subscription ends.
+const maxNotificationBacklog = 20_000
+
+// notifyQueue delivers the notifications of a subscription in order. The event loop
+// serves all subscriptions, the mempool and the indexer wait for it, so it can't wait
+// for a client to read.
+type notifyQueue struct {
+	notifier *rpc.Notifier
+	id       rpc.ID
+
+	mut   sync.Mutex
+	items []interface{}
+
+	wake   chan struct{} // there are items to send
+	quit   chan struct{} // closed when the subscription ends
+	failed chan struct{} // closed when the client can't be notified
+}
+
+func newNotifyQueue(notifier *rpc.Notifier, id rpc.ID) *notifyQueue {
+	q := &notifyQueue{
+		notifier: notifier,
+		id:       id,
+		wake:     make(chan struct{}, 1),
+		quit:     make(chan struct{}),
+		failed:   make(chan struct{}),
+	}
+	go q.run()
+
+	return q
+}
+
+// push appends a notification. It returns false if the client is too far behind.
+func (q *notifyQueue) push(item interface{}) bool {
+	q.mut.Lock()
+	defer q.mut.Unlock()
+
+	if len(q.items) >= maxNotificationBacklog {
+		return false
+	}
+	q.items = append(q.items, item)
+	select {
+	case q.wake <- struct{}{}:
+	default:
+	}
+
+	return true
+}
+
+func (q *notifyQueue) run() {
+	for {
+		select {
+		case <-q.wake:
+		case <-q.quit:
+			return
+		}
+
+		q.mut.Lock()
+		items := q.items
+		q.items = nil
+		q.mut.Unlock()
+
+		for _, item := range items {
+			select {
+			case <-q.quit:
+				return
+			default:
+			}
+			if err := q.notifier.Notify(q.id, item); err != nil {
+				close(q.failed)
+				return
+			}
+		}
+	}
+}
+
+// close ends the delivery.
+func (q *notifyQueue) close() {
+	close(q.quit)
+}
+
 // NewHeads send a notification each time a new (header) block is appended to the chain.
 func (api *FilterAPI) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
 	notifier, supported := rpc.NotifierFromContext(ctx)
@@ -57,13 +138,19 @@ func (api *FilterAPI) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
 
 	api.installSubscription(s)
 
+	queue := newNotifyQueue(notifier, rpcSub.ID)
 	go func() {
 		defer api.uninstallSubscription(s)
+		defer queue.close()
 
 		for {
 			select {
 			case h := <-headerChan:
-				_ = notifier.Notify(rpcSub.ID, h)
+				if !queue.push(h) {
+					return
+				}
+			case <-queue.failed:
+				return
 			case <-rpcSub.Err():
 				return
 			}
@@ -123,16 +210,22 @@ func (api *FilterAPI) Logs(ctx context.Context, crit ethfilters.FilterCriteria)
 
 	api.installSubscription(s)
 
+	queue := newNotifyQueue(notifier, rpcSub.ID)
 	go func() {
 		defer api.uninstallSubscription(s)
+		defer queue.close()
+
 		for {
 			select {
 			case logs := <-logsChan:
 				logs = filterLogs(logs, s.crit.FromBlock, s.crit.ToBlock, s.crit.Addresses, s.crit.Topics)
 				for _, log := range logs {
-					log := log
-					_ = notifier.Notify(rpcSub.ID, &log)
+					if !queue.push(log) {
+						return
+					}
 				}
+			case <-queue.failed:
+				return
 			case <-rpcSub.Err(): // client send an unsubscribe request
 				return
 			}
@@ -174,15 +267,23 @@ func (api *FilterAPI) NewPendingTransactions(ctx context.Context, fullTx *bool)
 
 	api.installSubscription(s)
 
+	queue := newNotifyQueue(notifier, rpcSub.ID)
 	go func() {
 		defer api.uninstallSubscription(s)
+		defer queue.close()
 
 		for {
 			select {
 			case rpcTx := <-txChan:
-				_ = notifier.Notify(rpcSub.ID, rpcTx)
+				if !queue.push(rpcTx) {
+					return
+				}
 			case hash := <-hashChan:
-				_ = notifier.Notify(rpcSub.ID, hash)
+				if !queue.push(hash) {
+					return
+				}
+			case <-queue.failed:
+				return
 			case <-rpcSub.Err():
 				return
 			}
-- 
2.43.0


From 2056ed20c3fa5b43d7c0e079fab17a8e5cbbfdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:57 +0000
Subject: [PATCH 61/65] fix: tell a supply of zero for a denomination that is
 not known

---
 x/evm/keeper/erc20.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index c2172fd..e7fcec1 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -221,7 +221,9 @@ func (k ERC20Keeper) GetPaginatedSupply(ctx context.Context, pageReq *query.Page
 // GetSupply implements IERC20Keeper.
 func (k ERC20Keeper) GetSupply(ctx context.Context, denom string) (math.Int, error) {
 	contractAddr, err := types.DenomToContractAddr(ctx, k, denom)
-	if err != nil {
+	if err != nil && errors.Is(err, collections.ErrNotFound) {
+		return math.ZeroInt(), nil
+	} else if err != nil {
 		return math.ZeroInt(), err
 	}
 
-- 
2.43.0


From f4721ebec68f2c9b6b8fcae8de8a91616157810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:50 +0000
Subject: [PATCH 62/65] fix: refuse Ethereum transactions whose fee or value is
 out of range

---
 x/evm/keeper/txutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index e691715..5552e60 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -71,10 +71,16 @@ func (u *TxUtils) ConvertEthereumTxToCosmosTx(ctx context.Context, ethTx *corety
 	// convert gas fee unit from wei to cosmos fee unit
 	gasLimit := ethTx.Gas()
 	gasFeeAmount := computeGasFeeAmount(gasFeeCap, gasLimit, decimals)
+	if gasFeeAmount.BitLen() > math.MaxBitLen {
+		return nil, sdkerrors.ErrInvalidCoins.Wrap("fee is out of range")
+	}
 	feeAmount := sdk.NewCoins(sdk.NewCoin(params.FeeDenom, math.NewIntFromBigInt(gasFeeAmount)))
 
 	// convert value unit from wei to cosmos fee unit
 	value := types.FromEthersUnit(decimals, ethTx.Value())
+	if value.BitLen() > math.MaxBitLen {
+		return nil, types.ErrInvalidValue.Wrap("value is out of range")
+	}
 
 	// check if the value is correctly converted without dropping any precision
 	if types.ToEthersUint(decimals, value).Cmp(ethTx.Value()) != 0 {
-- 
2.43.0


From 9bee2affbd527bae6d49f74acc8ef05330f87aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:22 +0000
Subject: [PATCH 63/65] fix: remove rolled back blocks from the EVM index

After a rollback of the chain the index kept the transactions, receipts
and block hashes of the blocks that were replaced: a block was listed
with transactions it does not contain, and the hash of a replaced block
answered with the block that took its place.
---
 indexer/abci.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/indexer/abci.go b/indexer/abci.go
index 57868c1..645d0fe 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -2,6 +2,7 @@ package indexer
 
 import (
 	"context"
+	"errors"
 	"math/big"
 	"time"
 
@@ -29,6 +30,12 @@ func (e *EVMIndexerImpl) ListenCommit(ctx context.Context, res abci.ResponseComm
 func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.RequestFinalizeBlock, res abci.ResponseFinalizeBlock) error {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	// blocks of this height on are still indexed if the chain was rolled back
+	if err := e.removeBlocksFrom(sdkCtx, uint64(sdkCtx.BlockHeight())); err != nil {
+		e.logger.Error("failed to remove rolled back blocks", "err", err)
+		return err
+	}
+
 	// load base fee from evm keeper
 	baseFee, err := e.evmKeeper.BaseFee(sdkCtx)
 	if err != nil {
@@ -235,3 +242,56 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 
 	return nil
 }
+
+// removeBlocksFrom removes the indexed blocks of the given height and above.
+func (e *EVMIndexerImpl) removeBlocksFrom(ctx context.Context, height uint64) error {
+	for ; ; height++ {
+		header, err := e.BlockHeaderMap.Get(ctx, height)
+		if errors.Is(err, collections.ErrNotFound) {
+			return nil
+		} else if err != nil {
+			return err
+		}
+
+		var txKeys []collections.Pair[uint64, uint64]
+		var txHashes [][]byte
+		rng := collections.NewPrefixedPairRange[uint64, uint64](height)
+		err = e.BlockAndIndexToTxHashMap.Walk(ctx, rng, func(key collections.Pair[uint64, uint64], txHash []byte) (bool, error) {
+			txKeys = append(txKeys, key)
+			txHashes = append(txHashes, txHash)
+			return false, nil
+		})
+		if err != nil {
+			return err
+		}
+
+		for i, txHash := range txHashes {
+			cosmosTxHash, err := e.TxHashToCosmosTxHash.Get(ctx, txHash)
+			if err == nil {
+				err = e.CosmosTxHashToTxHash.Remove(ctx, cosmosTxHash)
+			}
+			if err != nil && !errors.Is(err, collections.ErrNotFound) {
+				return err
+			}
+			if err := e.TxHashToCosmosTxHash.Remove(ctx, txHash); err != nil {
+				return err
+			}
+			if err := e.TxMap.Remove(ctx, txHash); err != nil {
+				return err
+			}
+			if err := e.TxReceiptMap.Remove(ctx, txHash); err != nil {
+				return err
+			}
+			if err := e.BlockAndIndexToTxHashMap.Remove(ctx, txKeys[i]); err != nil {
+				return err
+			}
+		}
+
+		if err := e.BlockHashToNumberMap.Remove(ctx, header.Hash().Bytes()); err != nil {
+			return err
+		}
+		if err := e.BlockHeaderMap.Remove(ctx, height); err != nil {
+			return err
+		}
+	}
+}
-- 
2.43.0


From 8414cb344ff1a8a24f6713d090516547ac163aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:27 +0000
Subject: [PATCH 64/65] fix: answer DenomMetadataByQueryString as DenomMetadata

The query is documented to be identical to DenomMetadata but did not know
the metadata of a token's ERC20 contract.
---
 x/bank/keeper/grpc_query.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/x/bank/keeper/grpc_query.go b/x/bank/keeper/grpc_query.go
index 4b9b414..3c90081 100644
--- a/x/bank/keeper/grpc_query.go
+++ b/x/bank/keeper/grpc_query.go
@@ -208,19 +208,13 @@ func (k BaseKeeper) DenomMetadataByQueryString(c context.Context, req *types.Que
 		return nil, status.Errorf(codes.InvalidArgument, "empty request")
 	}
 
-	if err := sdk.ValidateDenom(req.Denom); err != nil {
-		return nil, status.Error(codes.InvalidArgument, err.Error())
-	}
-
-	ctx := sdk.UnwrapSDKContext(c)
-
-	metadata, found := k.GetDenomMetaData(ctx, req.Denom)
-	if !found {
-		return nil, status.Errorf(codes.NotFound, "client metadata for denom %s", req.Denom)
+	res, err := k.DenomMetadata(c, &types.QueryDenomMetadataRequest{Denom: req.Denom})
+	if err != nil {
+		return nil, err
 	}
 
 	return &types.QueryDenomMetadataByQueryStringResponse{
-		Metadata: metadata,
+		Metadata: res.Metadata,
 	}, nil
 }
 
-- 
2.43.0


From 13e0c7bbce647c65e82ca7d98ae59a13af91c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:10 +0000
Subject: [PATCH 65/65] fix: refuse transaction values which do not fit instead
 of panicking

---
 x/evm/client/cli/tx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/client/cli/tx.go b/x/evm/client/cli/tx.go
index cf2cd8c..52c194d 100644
--- a/x/evm/client/cli/tx.go
+++ b/x/evm/client/cli/tx.go
@@ -180,7 +180,7 @@ $ %s tx evm call 0x1 0x123456 --from mykey
 				return errors.Wrap(err, "failed to get value")
 			}
 			val, ok := new(big.Int).SetString(value, 10)
-			if !ok {
+			if !ok || val.BitLen() > math.MaxBitLen {
 				return fmt.Errorf("invalid value: %s", value)
 			}
 
@@ -234,7 +234,7 @@ func prepareContractCreation(cmd *cobra.Command, contractFile string) ([]byte, *
 		return nil, nil, errors.Wrap(err, "failed to get value")
 	}
 	val, ok := new(big.Int).SetString(value, 10)
-	if !ok {
+	if !ok || val.BitLen() > math.MaxBitLen {
 		return nil, nil, fmt.Errorf("invalid value: %s", value)
 	}
 
-- 
2.43.0

