package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	localhost "github.com/cosmos/ibc-go/v8/modules/light-clients/09-localhost"
	nfttransfertypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/initia-labs/minievm/verifkit"
)

// ibcPort is a transfer application with a channel to itself over the
// localhost client: near is our end, far the counterparty's.
type ibcPort struct {
	port, version string
	near, far     string
}

var (
	ports20  = ibcPort{port: "transfer", version: transfertypes.Version}
	second20 = ibcPort{port: "transfer", version: transfertypes.Version}
	ports721 = ibcPort{port: "nft-transfer", version: nfttransfertypes.Version}
)

// ibcHandle runs a message of the IBC core or an application.
func ibcHandle(c *verifkit.Chain, ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
	h := c.App.MsgServiceRouter().Handler(m)
	if h == nil {
		panic(fmt.Sprintf("no handler of %T", m))
	}
	return h(ctx, m)
}

// openChannel does the handshake.
func openChannel(c *verifkit.Chain, do func(m sdk.Msg) *sdk.Result, p *ibcPort) {
	by := c.Val.Bech()
	hops := []string{"connection-localhost"}
	ht := clienttypes.NewHeight(0, 1)
	proof := localhost.SentinelProof
	id := func(r *sdk.Result) string {
		if a := r.MsgResponses[0]; a.TypeUrl == sdk.MsgTypeURL(&channeltypes.MsgChannelOpenInitResponse{}) {
			var m channeltypes.MsgChannelOpenInitResponse
			must(m.Unmarshal(a.Value))
			return m.ChannelId
		}
		var m channeltypes.MsgChannelOpenTryResponse
		must(m.Unmarshal(r.MsgResponses[0].Value))
		return m.ChannelId
	}
	p.near = id(do(channeltypes.NewMsgChannelOpenInit(p.port, p.version, channeltypes.UNORDERED, hops, p.port, by)))
	p.far = id(do(channeltypes.NewMsgChannelOpenTry(p.port, p.version, channeltypes.UNORDERED, hops, p.port, p.near, p.version, proof, ht, by)))
	do(channeltypes.NewMsgChannelOpenAck(p.port, p.near, p.far, p.version, proof, ht, by))
	do(channeltypes.NewMsgChannelOpenConfirm(p.port, p.far, proof, ht, by))
}

var ibcOnce = sync.OnceValue(func() *verifkit.Chain {
	c := verifkit.NewChain(verifkit.Config{NAcc: 6, GasPrice: "0.15"})
	do := func(m sdk.Msg) *sdk.Result {
		res := c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{c.Val}, Fee: anyFee(c, 2_000_000)}))
		if res == nil || res.TxResults[0].Code != 0 {
			println(res.TxResults[0].Log)
			panic("handshake")
		}
		out := &sdk.Result{}
		var md sdk.TxMsgData
		must(md.Unmarshal(res.TxResults[0].Data))
		out.MsgResponses = md.MsgResponses
		return out
	}
	openChannel(c, do, &ports20)
	openChannel(c, do, &ports721)
	openChannel(c, do, &second20)
	return c
})

// ibcBase is a chain with open channels.
func ibcBase() *verifkit.Chain { return ibcOnce() }

// allowHook puts a contract on (or off) the list of those hooks may call.
func allowHook(c *verifkit.Chain, ctx sdk.Context, addr []byte, ok bool) {
	must(c.App.IBCHooksKeeper.SetAllowed(ctx, addr, ok))
}

// arrive makes the counterparty send a packet with the data and relays it:
// what the chain acknowledges (nil when it took no packet at all).
func ibcArrive(c *verifkit.Chain, ctx sdk.Context, p ibcPort, seq uint64, data []byte) (ack *channeltypes.Acknowledgement, raw []byte, err error) {
	pk := channeltypes.NewPacket(data, seq, p.port, p.far, p.port, p.near, clienttypes.ZeroHeight(), uint64(ctx.BlockTime().Add(time.Hour).UnixNano()))
	c.App.IBCKeeper.ChannelKeeper.SetPacketCommitment(ctx, p.port, p.far, seq, channeltypes.CommitPacket(c.App.AppCodec(), pk))
	cc, write := ctx.CacheContext()
	res, err := ibcHandle(c, cc, channeltypes.NewMsgRecvPacket(pk, localhost.SentinelProof, clienttypes.NewHeight(0, 1), c.Val.Bech()))
	if err != nil {
		return nil, nil, err
	}
	write()
	ctx.EventManager().EmitEvents(sdkEvents(res))
	ack, raw = ibcAcked(c, res)
	return ack, raw, nil
}

func sdkEvents(res *sdk.Result) (out sdk.Events) {
	for _, e := range res.Events {
		out = append(out, sdk.Event(e))
	}
	return
}

// ibcAcked is what the chain acknowledged meanwhile.
func ibcAcked(c *verifkit.Chain, res *sdk.Result) (ack *channeltypes.Acknowledgement, raw []byte) {
	for _, e := range res.Events {
		if e.Type != channeltypes.EventTypeWriteAck {
			continue
		}
		for _, a := range e.Attributes {
			if a.Key == channeltypes.AttributeKeyAckHex {
				raw = mustHex(a.Value)
			}
		}
	}
	if raw != nil {
		ack = &channeltypes.Acknowledgement{}
		must(c.App.AppCodec().UnmarshalJSON(raw, ack))
	}
	return
}

// ibcAck relays the counterparty's acknowledgement of a packet we sent.
func ibcAck(c *verifkit.Chain, ctx sdk.Context, pk channeltypes.Packet, ack []byte) error {
	_, err := ibcAckRes(c, ctx, pk, ack)
	return err
}

func ibcAckRes(c *verifkit.Chain, ctx sdk.Context, pk channeltypes.Packet, ack []byte) (*sdk.Result, error) {
	c.App.IBCKeeper.ChannelKeeper.SetPacketAcknowledgement(ctx, pk.DestinationPort, pk.DestinationChannel, pk.Sequence, channeltypes.CommitAcknowledgement(ack))
	return ibcHandle(c, ctx, channeltypes.NewMsgAcknowledgement(pk, ack, localhost.SentinelProof, clienttypes.NewHeight(0, 1), c.Val.Bech()))
}

func ibcTimeout(c *verifkit.Chain, ctx sdk.Context, pk channeltypes.Packet) error {
	_, err := ibcTimeoutRes(c, ctx, pk)
	return err
}

func ibcTimeoutRes(c *verifkit.Chain, ctx sdk.Context, pk channeltypes.Packet) (*sdk.Result, error) {
	return ibcHandle(c, ctx, channeltypes.NewMsgTimeout(pk, 1, localhost.SentinelProof, clienttypes.NewHeight(0, 1), c.Val.Bech()))
}

// ibcSent finds the packet which was sent.
func ibcSent(res *sdk.Result) (pk channeltypes.Packet, ok bool) {
	for _, e := range res.Events {
		if e.Type != channeltypes.EventTypeSendPacket {
			continue
		}
		at := map[string]string{}
		for _, a := range e.Attributes {
			at[a.Key] = a.Value
		}
		var ts, seq uint64
		fmt.Sscan(at[channeltypes.AttributeKeyTimeoutTimestamp], &ts)
		fmt.Sscan(at[channeltypes.AttributeKeySequence], &seq)
		ht, err := clienttypes.ParseHeight(at[channeltypes.AttributeKeyTimeoutHeight])
		must(err)
		pk = channeltypes.NewPacket(mustHex(at[channeltypes.AttributeKeyDataHex]), seq, at[channeltypes.AttributeKeySrcPort], at[channeltypes.AttributeKeySrcChannel], at[channeltypes.AttributeKeyDstPort], at[channeltypes.AttributeKeyDstChannel], ht, ts)
		ok = true
	}
	return
}

// ics20 is the data of a fungible packet.
func ics20(denom, amount, from, to, memo string) []byte {
	return transfertypes.NewFungibleTokenPacketData(denom, amount, from, to, memo).GetBytes()
}

func sendIcs20(c *verifkit.Chain, ctx sdk.Context, from sdk.AccAddress, coin sdk.Coin, to, memo string) (channeltypes.Packet, error) {
	m := transfertypes.NewMsgTransfer(ports20.port, ports20.near, coin, from.String(), to, clienttypes.ZeroHeight(), uint64(ctx.BlockTime().Add(time.Hour).UnixNano()), memo)
	res, err := ibcHandle(c, ctx, m)
	if err != nil {
		return channeltypes.Packet{}, err
	}
	pk, ok := ibcSent(res)
	if !ok {
		return pk, fmt.Errorf("no packet")
	}
	return pk, nil
}

func memoOf(v any) string {
	bz, err := json.Marshal(v)
	must(err)
	return string(bz)
}

func mustHex(s string) []byte {
	bz, err := hex.DecodeString(s)
	must(err)
	return bz
}
