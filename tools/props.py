#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json, sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
SDB="x/evm/state/statedb.go"; CTX="x/evm/keeper/context.go"; MS="x/evm/keeper/msg_server.go"; E20="x/evm/keeper/erc20.go"; TXU="x/evm/keeper/txutils.go"
# --- EVM execution
p("E01","A reverted EVM call frame leaves no trace",
 "When a call or contract creation inside an EVM execution fails, whatever it did (storage, balances, nonces, created or destroyed contracts, transient storage, logs, registrations in the token registry, cosmos messages it asked for) is undone, and everything done by the frames that did not fail is kept. This holds for every nesting of caught and uncaught failures, and an execution that fails at the top level changes nothing at all.",
 ["programs","inputs"],"every tree of nested CALL/DELEGATECALL/STATICCALL/CREATE frames, every placement of writes before, inside and after failing frames, every failure kind",
 "Tests revert one or two snapshots by hand; the guarantee quantifies over frame trees, in which the bookkeeping of several nested snapshots interacts.",
 [SDB,"x/evm/state/snapshot.go",CTX],[("snapshot stack and commit order","StateDB.Snapshot/RevertToSnapshot/Commit"),("cosmos message truncation","StateDB.RevertToSnapshot")],
 [("snapshot stack","cache contexts of the open frames","StateDB.snaps")],["all KV stores after the execution","emitted logs","dispatched cosmos messages"])
p("E02","Contracts execute exactly as Ethereum specifies",
 "For a contract execution that does not use the chain's own precompiles, the result, return data, logs, resulting storage, code, nonces and native-coin balances and the gas used are those of the Ethereum specification (Cancun rules, the fee token as native coin) for the same pre-state and block context. Self-destruct, refunds, warm and cold access, committed-versus-current storage values and account emptiness follow that specification too.",
 ["programs","inputs","histories"],"every sequence of bytecode programs, calldata, values, access lists and gas limits",
 "Tests execute a counter and an ERC20; the state backend is a reimplementation over a cosmos store and agreement with the specification is a statement about all programs.",
 [SDB,CTX],[("EVM state backend","x/evm/state/statedb.go"),("execution entry points","EVMCall/EVMCreate/EVMStaticCall")],[],["return value, gas used, logs, storage dump"])
p("E03","Nothing transient survives an EVM execution",
 "Transient storage, warm access-list entries, refund counters, logs, created-in-this-transaction marks and self-destruct marks of one EVM execution are invisible to every other execution, in the same transaction, block or a later block, and transient storage of one contract is invisible to another contract. An execution therefore behaves the same whether or not unrelated executions ran before it on the same state.",
 ["histories","programs"],"every order of earlier executions, successful, reverted or out of gas, in the same transaction, the same block and earlier blocks",
 "Unit tests run one execution per context, so leaks between executions of a block cannot show.",
 [SDB,"x/evm/keeper/keeper.go"],[("execution index scoping of transient collections","StateDB.execIndex"),("transient store reset per block","x/evm/keeper/keeper.go")],[("execIndex","prefix of all transient entries","x/evm/state/statedb.go")],["results and gas of identical executions"])
p("E04","Contracts see the true block context",
 "NUMBER, TIMESTAMP, CHAINID, BASEFEE, GASPRICE, ORIGIN and CALLER observed by a contract are those of the block and transaction it runs in, and BLOCKHASH of each of the last 256 heights is the hash of that block's header while the current, future and older heights read zero. Configuring a longer retention, restarting the node or any sequence of blocks does not change this.",
 ["histories","inputs","configurations"],"every block history, every queried height, every retention setting",
 "A test tracks a handful of hashes; the window is a statement about all heights over long histories.",
 ["x/evm/abci.go","x/evm/keeper/keeper.go",CTX,"x/evm/keeper/context_utils.go"],[("TrackBlockHash window","x/evm/keeper/keeper.go"),("buildBlockContext","x/evm/keeper/context.go")],[("EVMBlockHashes","height to header hash","x/evm/keeper/keeper.go")],["values returned by a probe contract"])
# --- transactions
p("T01","A failed transaction changes only fee and sequence",
 "A transaction that fails during execution leaves every persisted record as it was, except that its fee has been paid by the fee payer to the fee collector and the sequence numbers (and public keys) of its signers have advanced. A transaction rejected before execution leaves no change at all.",
 ["histories","inputs","programs"],"every transaction kind, message mix and failure point",
 "Tests check the error; equality of the whole store is a statement about all keys and all failure points.",
 ["app/ante/ante.go","app/ante/sigverify.go",MS,CTX],[("ante/exec/post cache contexts","baseapp.runTx"),("sequence accounting of EVM messages","app/ante/sigverify.go, x/evm/keeper/msg_server.go")],[],["difference of all KV stores before and after"])
p("T02","A signed transaction takes effect at most once",
 "Every signature is accepted for exactly one sequence number of its account: a transaction that was included in a block, whether it succeeded or failed, can never be accepted again, sequence numbers only grow, and a transaction bearing any sequence other than the account's current one is rejected. For an Ethereum account the sequence equals its Ethereum nonce: one per transaction and one per contract it creates.",
 ["histories","inputs"],"every history of successful, failing, replayed, out-of-order and multi-message transactions of short and long addresses",
 "Replay needs a history (fail, then resubmit); tests submit each transaction once.",
 ["app/ante/ante.go","app/ante/sigverify.go",MS],[("sequence check and increment","app/ante"),("nonce hand-over to the EVM","x/evm/keeper/msg_server.go")],[("account sequence","replay protection and EVM nonce","x/auth")],["tx codes and account sequences of each block"])
p("T03","Fees, gas and refunds are accounted exactly",
 "The mempool takes no transaction that offers less than the minimum price, unless its payer is on the fee whitelist. Of a transaction's declared fee the payer (or granter) loses exactly the fee, whitelisted or not, and the fee collector gains it; for a successful Ethereum transaction the configured share of the unused gas, at the paid gas price, and nothing else, flows back to the payer. Reported gas used never exceeds the gas limit on success, covers all EVM gas the transaction consumed, and out-of-gas never leaves effects behind.",
 ["inputs","histories","programs"],"every fee, gas limit, gas price, refund ratio, program and outcome",
 "Rounding and refund interplay over arbitrary amounts and outcomes; tests check one or two amounts.",
 ["app/posthandler/gasrefund.go","app/ante/fee.go",CTX,"x/evm/types/gas.go"],[("GasRefundDecorator","app/posthandler/gasrefund.go"),("gas metering of EVM","x/evm/keeper/context.go")],[],["balances of payer and collector, gas fields of results, refund events"])
p("T04","An Ethereum signature authorises exactly one transaction",
 "A transaction authorised by an Ethereum signature executes exactly the signed content (recipient, calldata, value, gas limit, fee, access list, nonce, chain) on behalf of the recovered signer, with the fee charged to that signer; changing anything of what the carrying transaction does or pays, its signature, its sender or the chain makes it invalid. A pre-EIP-155, wrong-chain or malleated signature is never accepted.",
 ["inputs","histories"],"every signed transaction of every type and every mutation of the wrapping transaction",
 "Tests convert a fixed transaction there and back; unforgeability quantifies over all mutations.",
 [TXU,"app/ante/verify.go"],[("signature verification by re-deriving the signed tx","app/ante/verify.go"),("ConvertEthereumTxToCosmosTx / ConvertCosmosTxToEthereumTx","x/evm/keeper/txutils.go")],[],["acceptance of mutated transactions in CheckTx and FinalizeBlock"])
p("T05","Ethereum and cosmos forms of a transaction correspond one to one",
 "Converting an accepted Ethereum transaction to its cosmos form and back yields the same transaction, byte for byte and hash for hash, for every transaction type, and no cosmos transaction that was not made from an Ethereum transaction converts to one. The value in the cosmos form equals the Ethereum value exactly (a value that is no whole number of units is refused) and the fee is the signed maximal fee rounded up to at most one unit above it.",
 ["inputs","configurations"],"every transaction type, field value, fee token decimals and fee level",
 "Round trip over the product of types, decimals and amounts; tests use a few values with 18 decimals.",
 [TXU,"x/evm/types/txutils.go","x/evm/types/decimals.go"],[("conversion functions","x/evm/keeper/txutils.go"),("decimals scaling","x/evm/types/decimals.go")],[],["result of both conversions"])
p("T06","Underpriced transactions are not admitted",
 "A transaction whose fee reaches the minimum gas price of the chain and of the node in none of the accepted denominations is not admitted to the mempool, whatever denominations its fee mixes (unless its sender is whitelisted for the free lane), and one that reaches it in some accepted denomination is not refused for its price; the base fee shown to contracts and to clients is that minimum for the fee token in whole wei.",
 ["inputs","configurations"],"every fee, gas limit and minimum price configuration, in mempool and block execution",
 "Boundary and rounding cases over all prices and gas limits.",
 ["app/ante/ante.go","app/keepers/gas_price.go","x/evm/ante/gas_prices.go"],[("fee checker","app/ante/ante.go (OPinit MempoolFeeChecker)"),("GasPriceKeeper","app/keepers/gas_price.go")],[],["CheckTx results, BASEFEE opcode, gas price queries"])
# --- bank / tokens
p("B01","Coins are conserved",
 "For every denomination created by the chain the total supply always equals the sum of all account balances; transfers, fees, refunds, EVM value transfers and community-pool payments never change the supply, and it changes only by explicit mints and burns (and native coins destroyed by self-destruct), by exactly the minted or burnt amount. This holds after every block of every history, including failing transactions.",
 ["histories","inputs","programs"],"every history of bank, EVM, bridge and fee operations",
 "Conservation is a whole-ledger invariant over histories; tests compare single balances.",
 [E20,"x/bank/keeper/send.go","x/bank/keeper/keeper.go",SDB,"app/posthandler/gasrefund.go"],[("bank ledger in ERC20 contracts","x/evm/keeper/erc20.go"),("native coin of the EVM","StateDB.AddBalance/SubBalance")],[],["sum over all accounts versus supply after every block"])
p("B02","Bank queries and ERC20 contracts tell the same story",
 "For every account and denomination the balance, spendable balance and supply reported by the bank (single, listed, paginated in any page size and iterated) equal what the token's ERC20 contract reports, each holding is listed exactly once, and no balance is listed that is not held (a listed zero counts as none). A coin moved through either interface is visible through the other in the same state. The metadata the bank tells of a denomination is what the authority has set, else what the contract says, however it is asked.",
 ["histories","inputs"],"every history of operations through either interface, every page size and query",
 "Tests compare one account and denomination; paging and registration interplay needs histories.",
 [E20,"x/bank/keeper/view.go","x/bank/keeper/grpc_query.go","x/evm/keeper/erc20_stores.go"],[("ERC20Stores index","x/evm/keeper/erc20_stores.go"),("EVMViewKeeper","x/bank/keeper/view.go")],[("ERC20Stores","which tokens an account ever held","x/evm/keeper/keeper.go")],["bank gRPC answers versus balanceOf/totalSupply"])
p("B03","Transfers move exactly what was asked, or nothing",
 "A successful transfer of any set of coins debits the sender and credits the recipient by exactly the listed amounts, for single, multi-coin, module and self transfers and for both bank and ERC20 interfaces; an unaffordable, disabled or invalid one moves nothing. Blocked (module) addresses cannot be paid by users through either interface, and send-disabled coins cannot be sent by bank transfers; which these are changes only by the authority, and exactly as asked.",
 ["inputs","histories"],"every coin set, sender/recipient pair (including aliases and modules) and send-enabled configuration",
 "Sign, alias and partial failure combinations exceed any sample.",
 ["x/bank/keeper/send.go","x/bank/keeper/msg_server.go",E20],[("msg server checks","x/bank/keeper/msg_server.go"),("sudoTransfer and ERC20 blocks","x/evm/contracts/initia_erc20")],[],["balance table before and after every transfer"])
p("B04","Only the entitled can mint, burn or act on others' tokens",
 "No transaction signed by a user, and no contract code, can increase the supply of a chain-created coin, move or burn somebody else's coins without an allowance, or call the privileged token functions reserved to the chain; allowances bound what a spender moves and are consumed exactly. Module mint and burn rights are enforced, tokens not created by the chain are never minted by it, and burning such tokens moves exactly that coin to the community pool.",
 ["inputs","histories","programs"],"every caller, function, argument and sequence of approvals",
 "An access-control guarantee: it concerns all callers and call paths rather than those in a test.",
 [E20,"x/bank/keeper/keeper.go","x/evm/contracts/initia_erc20/InitiaERC20.sol","x/evm/contracts/erc20/ERC20.sol"],[("onlyChain / minter / burner permissions","x/evm/contracts, x/bank/keeper/keeper.go")],[],["balances, supplies and allowances"])
p("B05","Denominations and token contracts map one to one",
 "Every denomination has at most one token contract and every registered contract exactly one denomination, the two mappings are inverse to each other and never change once made, also as seen from contracts; a contract's generic denomination names that contract and nobody else's. Denominations, balances and contracts stay in agreement through failing creations and races of several creations in a block.",
 ["histories","inputs"],"every order of coin creations, registrations, failing creations and look-ups",
 "Requires histories with failures and look-ups from both sides.",
 [E20,"x/evm/types/denom.go","x/evm/keeper/erc20_stores.go"],[("CreateERC20 mapping writes","x/evm/keeper/erc20.go"),("denom parsing","x/evm/types/denom.go")],[("denom/contract maps","bijection","x/evm/keeper/keeper.go")],["map contents, precompile answers, gRPC answers"])
p("B06","Decimals conversion never creates value",
 "Converting native amounts between the fee token's decimals and 18 decimals is exact when scaling up and rounds down when scaling down, so a balance, fee or value seen through the Ethereum interface is never worth more than what is held or paid, for every number of decimals. Gas price and base fee conversions keep the nine extra digits they claim.",
 ["inputs","configurations"],"every amount and every decimals setting 0..255 of the fee token",
 "Arithmetic over all amounts and decimals.",
 ["x/evm/types/decimals.go","x/evm/keeper/context_utils.go",TXU,"jsonrpc/backend/eth.go"],[("ToEthersUint/FromEthersUint","x/evm/types/decimals.go")],[],["converted amounts versus exact rational arithmetic"])
p("B07","Coins in IBC and bridge flows keep bank semantics",
 "Bridge deposits credit the recipient with exactly the deposited amount of the deposited denomination once per deposit sequence, withdrawals burn exactly the withdrawn amount, and denomination metadata and creation of the token contract happen on first sight without disturbing existing holders. A deposit that cannot be credited, or whose hook fails, leaves nobody richer and is answered by a withdrawal of exactly the deposited amount; a hook takes effect only together with its deposit and only as signed.",
 ["histories","inputs"],"every sequence of deposits, repeated deposits, hook payloads and withdrawals",
 "Bridge flows are not exercised by the repository's tests; exactly-once needs histories.",
 ["app/keepers/keepers.go",E20,"x/bank/keeper/keeper.go"],[("MintCoins/BurnCoins on the ERC20 ledger","x/evm/keeper/erc20.go"),("opchild wiring","app/keepers/keepers.go")],[],["balances and supplies after each deposit and withdrawal"])
p("B08","IBC transfers conserve coins and tokens",
 "A coin or token of this chain that leaves over a channel is with the channel's escrow account, one of another chain is burnt; what arrives is credited to the receiver in exactly the amount told, released from escrow or minted, once per packet, or refused with an error acknowledgement and no effect; a refused or expired packet gives its sender back exactly what was sent, once, with the token URI it left with. Coins paid to a forwarding account leave for its recipient at the end of the block, each in full; a packet to be sent on over another channel is acknowledged with what became of the one sent, and leaves nothing behind when it is refused. Bank, contracts and the total escrow agree throughout. The ERC20 wrapper locks what it wraps, sends an image of six decimals and gives back the original when the transfer fails.",
 ["histories","inputs","faults"],"every order of sends, arrivals, acknowledgements, refusals, timeouts, repeated packets, forwards and payments, whatever the counterparty says, and any gas limit",
 "The ledger of coins is a set of contracts, reached through transfer, nft-transfer, forwarding and hooks; the repository's tests run none of them together.",
 [E20,"x/evm/keeper/erc721.go","x/bank/keeper/keeper.go","app/keepers/keepers.go","app/keepers/forwarding.go","app/forwarding.go","app/ibc-hooks/receive.go","x/evm/contracts/erc20_wrapper/ERC20Wrapper.sol"],[("MintCoins/BurnCoins/SendCoins","x/evm/keeper/erc20.go"),("Transfers/Mints/Burns","x/evm/keeper/erc721.go"),("IBC stacks","app/keepers/keepers.go")],[],["balances, contract balances, supply, total escrow and packets after each step; owner and URI of each token"])
# --- policy
p("P01","Deployment and custom-token policy is enforced",
 "When a list of allowed publishers is set only those accounts can deploy contracts by transaction, and when custom tokens are disabled or restricted only allowed contracts can become registered coins; when unset, everyone can. Parameters change only by the authority, invalid parameters are refused as a whole, and a fee token that cannot be minted and burnt by the chain is refused.",
 ["configurations","inputs","histories"],"every parameter configuration, sender, contract and order of changes",
 "Access policy over all configurations and paths; tests check single entries.",
 [MS,"x/evm/keeper/erc20_stores.go","x/evm/types/params.go"],[("publisher check","x/evm/keeper/msg_server.go"),("Register policy","x/evm/keeper/erc20_stores.go")],[],["deployment and registration outcomes"])
p("P02","Proposals carry what is valid and all nodes agree on them",
 "Every transaction admitted to a node's mempool that stays valid is proposed by that node as space allows (one that follows a transaction of the same sender which found no room may have to be submitted again). A proposal respects the block's limits of bytes and gas, holds only transactions of the mempool (and an auction winner's bundle, in order, right after its bid, with the bid paid exactly), each once, those of a sender in sequence order, lanes ordered system, auctions, fee-whitelisted, others. Every other node, whatever its own configuration, accepts it, and none of it is refused on execution. Proposals with undecodable, wrongly signed, replayed, out-of-sequence or over-limit transactions or lanes in the wrong order are refused.",
 ["configurations","inputs","histories"],"every mempool content, block limit, node configuration and tampering of a proposal",
 "Agreement between proposer and validators over all mempool contents; tests check no proposals at all.",
 ["app/blocksdk.go","app/ante/ante.go"],[("lanes and mempool","app/blocksdk.go"),("ante of lanes","app/ante/ante.go")],[],["the proposal's transactions, each node's verdict and the results of execution"])
# --- precompiles
p("C01","A contract can act on cosmos only as itself",
 "A cosmos message requested by a contract runs only if its sole signer is the calling contract (or the account the caller stands for), whatever the call path (call, delegatecall, callcode, static call, nested, constructor); requests in a static context are refused. No contract can thereby spend, sign or register for another account.",
 ["programs","inputs"],"every message type, signer, caller and call path",
 "Authorization across call opcodes; tests call the precompile object directly.",
 ["x/evm/precompiles/cosmos/contract.go",CTX],[("signer check","ExtendedRun execute_cosmos"),("readOnly check","ExtendedRun")],[],["effects of requested messages"])
p("C02","Cosmos messages run after the contract, in order, all or nothing",
 "The cosmos messages requested by the frames of a successful execution that were not reverted run exactly once, in the order of request, after the EVM changes are applied, and see them; if any of them fails the whole execution fails with no effect of any of them or of the contract. Messages and registrations requested by reverted frames never run.",
 ["programs","histories"],"every interleaving of requests, failures and nested executions started by messages",
 "Ordering and atomicity over arbitrary request sequences, including messages that start another execution.",
 [CTX,SDB,"x/evm/precompiles/cosmos/contract.go"],[("dispatchMessages","x/evm/keeper/context.go"),("message list truncation on revert","x/evm/state/statedb.go")],[],["store difference and events"])
p("C03","Contract-visible chain queries answer correctly and purely",
 "The address, blocked, module-account, denomination and whitelisted-query functions offered to contracts return what the chain's state says at that point of the execution (including uncommitted effects of the same execution), identically on every node regardless of any earlier queries or malformed requests. Queries outside the whitelist are refused.",
 ["inputs","histories"],"every request, valid or malformed, in every order",
 "History independence: tests issue one well-formed request.",
 ["x/evm/precompiles/cosmos/contract.go","x/evm/types/query_cosmos.go"],[("JSON/proto conversion","x/evm/types/query_cosmos.go"),("whitelist","x/evm/types/query_cosmos.go")],[],["answers versus keeper state"])
p("C04","The token registry is exact",
 "A token contract is registered exactly when it asked to be (and was allowed to) or was created by the factory, an account's holdings list contains a token exactly when that registered token reported the account, and registering twice changes nothing. Only the factory can register on behalf of others.",
 ["histories","programs"],"every order of registrations by contracts, factory and strangers, in normal and reverted frames",
 "State machine over histories and callers.",
 ["x/evm/precompiles/erc20_registry/contract.go","x/evm/keeper/erc20_stores.go"],[("registry precompile","x/evm/precompiles/erc20_registry/contract.go")],[("ERC20s, ERC20Stores","registered tokens and holdings","x/evm/keeper/keeper.go")],["registry stores after each block"])
# --- NFTs / IBC
p("N01","NFT classes and tokens are tracked exactly",
 "Each NFT class has one contract and each token one owner; mint, transfer and burn through the NFT interface and through the contract agree, refuse what the owner did not authorise, and preserve class, token ids, URIs and per-owner counts. A failing operation on a list of tokens changes nothing.",
 ["histories","inputs"],"every history of class creation, mint, transfer and burn over arbitrary ids",
 "Ownership is a function of the whole history; tests make a single pass.",
 ["x/evm/keeper/erc721.go","x/evm/types/collection.go"],[("ERC721Keeper","x/evm/keeper/erc721.go"),("token id mapping","x/evm/types/collection.go")],[],["ownerOf, balanceOf, tokenURI after each operation"])
p("I01","An IBC transfer with a hook is received atomically",
 "A received token or NFT packet whose memo asks for a contract call either credits the tokens and runs that call, or answers with an error acknowledgement and changes nothing; the call is made by an address derived from channel and sender that no key controls, to the named contract, only if that contract is allowed. Malformed memos and packets without a hook never execute anything. (If the gas of the relaying transaction runs out, that whole transaction fails and the packet stays unreceived.)",
 ["inputs","programs","fault_sequences"],"every packet, memo, contract behaviour and access list",
 "All-or-nothing over arbitrary memos and callee behaviour; tests use one counter contract and a mocked transfer.",
 ["app/ibc-hooks/receive.go","app/ibc-hooks/util.go"],[("onRecvIcs20Packet/onRecvIcs721Packet","app/ibc-hooks/receive.go"),("intermediate sender","initia x/ibc-hooks")],[],["acknowledgement, store difference"])
p("I02","IBC callbacks reflect the packet's fate and never block it",
 "The acknowledgement or timeout of a packet that asked for a callback always completes its refund or settlement; the callback is called at most once with the packet's id and true outcome, on behalf of the sender, only if the contract is allowed, and if the callback fails all of its own effects are undone and nothing else. (If the gas of the relaying transaction runs out, that whole transaction fails and the packet stays to be settled.)",
 ["inputs","programs","fault_sequences"],"every memo, acknowledgement, timeout and callback behaviour including out of gas",
 "Fault isolation over arbitrary callback contracts.",
 ["app/ibc-hooks/ack.go","app/ibc-hooks/timeout.go","app/ibc-hooks/util.go"],[("cache context around the callback","app/ibc-hooks/ack.go, timeout.go")],[],["store difference, callback records"])
# --- whole-state
p("G01","Exported genesis reproduces the chain",
 "Exporting the state and starting a new chain from it yields the same accounts, balances, supplies, contracts, code, storage, token and NFT registrations, block hashes and parameters, so every later transaction behaves the same; exporting again gives the same genesis. This holds for every reachable state.",
 ["histories"],"every reachable state",
 "Tests round-trip a hand-made genesis, not states reached by histories.",
 ["x/evm/keeper/genesis.go","x/bank/keeper/genesis.go","app/export.go"],[("InitGenesis/ExportGenesis","x/evm/keeper/genesis.go")],[],["store dumps of both chains, behaviour of probes"])
p("G02","The software upgrade keeps the chain and adds what is new",
 "A chain of the version before, with any history, that runs the software upgrade this version knows goes on: the upgrade's block is executed, every node reaches the same state, the gas refund ratio is the default one and the number of retained block hashes is unlimited, the ERC-20 wrapper exists at the address and with the code it has on a new chain and knows the chain's token factory, and nothing else - no balance, supply, sequence, contract, code or storage of anyone - has changed. Accounts, tokens and transactions keep working afterwards. This holds for every history before it and whatever the parameters were.",
 ["histories"],"every history before the upgrade, every setting of the parameters it changes, and transactions in the upgrade's own block",
 "No test runs the upgrade handler.",
 ["app/upgrade.go","x/evm/keeper/genesis.go"],[("RegisterUpgradeHandlers","app/upgrade.go"),("DeployERC20Wrapper","x/evm/keeper/genesis.go")],[],["store dumps before and after the upgrade's block, parameters, wrapper code, application hash of a second node"])
p("D01","Execution is deterministic and restart-safe",
 "Nodes that execute the same blocks, whatever they were asked over their query and JSON-RPC interfaces in between, whichever of them restarted or replayed, and regardless of local configuration and mempool contents, compute the same results, gas, events and application hash. A node that stops between finalising and committing a block recovers to the same state by re-executing it.",
 ["histories","schedules","crash_points"],"every block history, interleaving with queries, simulations and checks, and every restart point",
 "Comparing replicas under interleavings is not something a unit test does.",
 ["x/evm/keeper/keeper.go",SDB,"app/app.go"],[("execution index","x/evm/keeper/keeper.go"),("ABCI handlers","app/app.go")],[],["app hash and tx results of replicas"])
p("Q01","Queries and simulations never change the chain",
 "No query, simulation, trace, gas estimation or transaction check changes committed state or the outcome of later blocks, and they answer from the committed state they were asked about. A simulated call returns what the same call would return if executed in the next block on that state, and an estimate of its gas suffices for it.",
 ["inputs","histories"],"every query and simulation payload, including state-changing calls, at every height",
 "Purity over all payloads; tests look at the answer only.",
 ["x/evm/keeper/query_server.go","jsonrpc/backend/gas.go",CTX],[("cached query contexts","x/evm/keeper/query_server.go")],[],["app hash, store dumps, replay against execution"])
p("S01","Accounts are never mixed up",
 "Every account has a unique account number that never changes, a contract or module account never becomes another kind of account or gains a usable key, and a 32-byte address acts in the EVM through one 20-byte address that no other account shares. A contract is only ever created where no other account in use is.",
 ["histories","inputs"],"every history of account creations through transfers, transactions, contract creation and long addresses",
 "Uniqueness is an invariant over histories.",
 ["x/evm/keeper/address.go","x/evm/types/auth.go",SDB],[("convertToEVMAddress","x/evm/keeper/address.go"),("CreateContract conversion","x/evm/state/statedb.go")],[],["account store after every block"])
p("L01","No transaction can stop the chain",
 "Whatever bytes, messages, bytecode or token contracts users submit, every block proposal is processed to completion without the node crashing or halting, honest transactions in the same block still take effect, and resource use stays bounded by the gas paid.",
 ["inputs","programs","histories"],"every malformed, adversarial or resource-hungry transaction",
 "Adversarial inputs are unbounded; tests contain none.",
 ["app/app.go","app/ante/ante.go",CTX,"x/evm/precompiles/cosmos/contract.go","indexer/abci.go"],[("panic recovery and gas limits","baseapp.runTx, x/evm")],[],["FinalizeBlock/Commit completion and honest txs' results"])
# --- JSON-RPC / indexer
p("X01","The Ethereum index is complete and faithful",
 "After each committed block the JSON-RPC interface can find that block by number and hash and every Ethereum transaction in it by hash and by position, with exactly one receipt telling its true outcome, gas, cumulative gas, logs, contract address and position, and finds nothing that is not on chain, also when the chain was rolled back to an earlier block and other blocks followed. Log and transaction positions count up without gaps within a block, and the block's bloom filter matches all its logs.",
 ["histories","inputs"],"every block composition of Ethereum and cosmos transactions, successes and failures, of any size",
 "Completeness over block compositions; tests index one or two transactions.",
 ["indexer/abci.go","indexer/reader.go","indexer/utils.go"],[("ListenFinalizeBlock","indexer/abci.go")],[("tx, receipt, header maps","JSON-RPC index","indexer/indexer.go")],["index contents versus FinalizeBlock results"])
p("X02","Log queries return exactly the matching logs",
 "A log query by block range or block hash with any address and topic filter returns every log of canonical blocks that matches the filter by the Ethereum JSON-RPC rules, no other log, each once, in chain order with correct block, transaction and log coordinates.",
 ["inputs","histories"],"every filter, range and log history",
 "Filter semantics over all criteria and histories; needs a brute-force reference.",
 ["jsonrpc/namespaces/eth/filters/filter.go","jsonrpc/namespaces/eth/filters/api.go","jsonrpc/backend/filters.go"],[("rangeLogs/blockLogs/bloom","filters/filter.go")],[],["eth_getLogs answers versus brute force"])
p("X03","Filters and subscriptions deliver every event exactly once",
 "An installed log, block or pending-transaction filter reports each matching event after its creation exactly once over successive polls, in order, and a subscription delivers each to every live subscriber; uninstalled filters and closed subscriptions get nothing, and one client cannot take events away from another. A filter that keeps being polled for changes is not dropped.",
 ["schedules","histories"],"every interleaving of polls, installs, removals and blocks",
 "Exactly-once delivery across goroutines and polls; no test covers it.",
 ["jsonrpc/namespaces/eth/filters/api.go","jsonrpc/namespaces/eth/filters/subscriptions.go","indexer/indexer.go"],[("event loop","filters/api.go"),("subscriber fan-out","indexer")],[],["delivered events versus committed blocks"])
p("X04","The index store behaves as a plain key-value store",
 "The cached store under the JSON-RPC index returns for every sequence of writes, deletes, reads, iterations and flushes, with any cache capacity and value size, what a plain key-value map would, and after a flush the database holds the same. Nothing unflushed is visible in the database and nothing flushed is lost.",
 ["histories","configurations","crash_points"],"every operation sequence, key set, value size and cache capacity",
 "A model-based statement over operation sequences; tests do a few operations.",
 ["indexer/store.go"],[("CacheStore","indexer/store.go")],[("cache","unflushed and recently used entries","indexer/store.go")],["answers versus a map model"])
p("X05","Ethereum state queries tell the chain's state at the asked block",
 "Balances, nonces, code, storage, block contents, transaction counts, receipts, fee histories and call results obtained through the Ethereum JSON-RPC interface equal the chain's state and history at the asked block (number, hash or tag; 0 and 'earliest' name the first block), and unknown blocks, transactions and indexes give null or an error rather than other data.",
 ["inputs","histories"],"every method, address, slot, block tag, number, hash and index over histories",
 "Cross-product of methods and blocks; tests have none against history.",
 ["jsonrpc/backend/eth.go","jsonrpc/backend/block.go","jsonrpc/backend/tx.go","jsonrpc/namespaces/eth/api.go"],[("backend queries","jsonrpc/backend")],[],["JSON-RPC answers versus recorded states"])
p("X06","Concurrent use of a node is free of data races",
 "Serving JSON-RPC and gRPC queries, simulations, transaction submissions, subscriptions and filters concurrently with block execution and indexing never races on shared memory, deadlocks or crashes, and each answer is one that some serial order would give.",
 ["schedules"],"every interleaving of clients, block execution and indexing",
 "Only concurrent execution under a race detector can show it; the tests are sequential.",
 ["jsonrpc/backend","jsonrpc/namespaces/eth/filters","indexer","x/evm/keeper"],[("mutexes and channels","jsonrpc, indexer")],[],["race detector reports, completion of all clients"])
p("X07","Submitted raw transactions enter the mempool in nonce order",
 "Ethereum transactions submitted over JSON-RPC reach the mempool in nonce order per sender without gaps. Early ones wait (within the configured queue capacity; a later submission of the same nonce replaces the waiting one, txpool_content tells what waits) and are sent as soon as the gap closes. Stale and malformed ones are refused without disturbing the others, a submission fails only for a fault of its own transaction, and none that became due is lost, also when the mempool has no room for a while; senders do not affect one another.",
 ["schedules","histories"],"every submission order, concurrency and interleaving with blocks",
 "Ordering across submission orders and concurrency; no test covers it.",
 ["jsonrpc/backend/tx.go","jsonrpc/backend/backend.go"],[("queued txs and account mutex","jsonrpc/backend/tx.go")],[("queuedTxs","transactions ahead of the account's sequence","jsonrpc/backend/backend.go")],["order of broadcasts"])
p("X08","No client can disturb the node for others",
 "Every JSON-RPC request, however malformed, extreme or out of place, also while the node is starting, or executing a block it has announced already, is answered by a result or by an error that says what is wrong, never by a crash of its handler or of the node. Clients that stop reading, leave in the middle of a request, abandon subscriptions or filters or send garbage neither delay block execution, transaction checks or other clients, nor leave anything running once they are gone; answers about past blocks stay what they were.",
 ["inputs","histories","schedules"],"every request, batch and frame, and every behaviour of the clients beside block execution",
 "Hostile requests and clients are unbounded; no test sends any over a connection.",
 ["jsonrpc/namespaces/eth/filters/subscriptions.go","jsonrpc/namespaces/eth/filters/api.go","jsonrpc/backend/feehistory.go","indexer/mempool.go","indexer/indexer.go"],[("event loop and subscriptions","jsonrpc/namespaces/eth/filters"),("request handlers","jsonrpc/backend")],[],["answers, times of CheckTx and blocks beside clients, goroutines left"])
p("X09","The JSON-RPC servers do what their configuration says",
 "What an operator configures is what the node does: every value of the jsonrpc and evm sections is the same after it was written to the configuration file and read back. Only the servers that are enabled listen, at the address configured, and they stop listening with the node. Exactly the configured API namespaces answer. The limits on the length of batches, the size of their answers, open connections, the range and cap of fee histories, queued transactions and on websocket origins are obeyed: what is within them is served, and what is beyond them refused.",
 ["inputs","configurations"],"every configuration of the jsonrpc and evm sections, and every request to a server configured so",
 "No test writes and reads back a configuration with values other than the defaults, nor starts a server of any configuration.",
 ["jsonrpc/jsonrpc.go","jsonrpc/config/config.go","jsonrpc/backend/backend.go","jsonrpc/backend/feehistory.go","x/evm/config/config.go"],[("servers","jsonrpc/jsonrpc.go"),("template and flags of the section","jsonrpc/config/config.go"),("template and flags of the section","x/evm/config/config.go")],[],["what listens where, what each method answers over http and websocket, values read back from the file"])
p("X10","The shipped node does what is typed",
 "From init to restart, operated by its command line alone: the genesis which init and the genesis commands write is of the chain id and the fee denomination which were asked for and is valid; the node makes blocks from it; what the transaction commands of the evm module sign and send is what was typed (contract, salt, code followed by constructor input, input, value), and what makes no sense is refused in words and does nothing; a transaction which was accepted gets into a block; the command line, REST and JSON-RPC tell the same state, which is what the transactions made; after the node was stopped or killed it can be exported, and started again it goes on with the same state.",
 ["inputs","histories","crash points"],"every configuration to begin with, every sequence of commands, and every end of the process",
 "No test runs the binary: its commands, its wiring and its restart over real consensus and files are reached by none.",
 ["cmd/minitiad/root.go","cmd/minitiad/init.go","cmd/minitiad/config.go","x/evm/client/cli/tx.go","jsonrpc/jsonrpc.go","app/app.go"],[("commands and wiring of the binary","cmd/minitiad"),("transaction commands","x/evm/client/cli/tx.go")],[],["genesis files, blocks and announcements of a node in its own process, state by every interface before and after its end"])
only=sys.argv[1:]
for x in P: print(json.dumps(x,ensure_ascii=False))
