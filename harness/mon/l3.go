package main

import (
	"context"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/multisig"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	sdktx "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	"github.com/initia-labs/initia/crypto/ethsecp256k1"

	"github.com/initia-labs/minievm/verifkit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Blocks of hostile transactions among which honest ones must take effect.

type hostile struct {
	r     *R
	id    string
	rng   *rand.Rand
	c     *verifkit.Chain
	node  *verifkit.Node
	good  []*verifkit.Account
	bad   []*verifkit.Account
	seqs  map[*verifkit.Account]uint64
	urls  []string
	strs  []string
	traps []common.Address
	old   [][]byte // hostile transactions of before
	token common.Address
	names map[string]int // outcomes
	sane  bool           // mostly plausible contents
	turn  int
}

func newHostile(r *R, id string, rng *rand.Rand) *hostile {
	c := verifkit.NewChain(verifkit.Config{NAcc: 13, GasPrice: "0.15", Indexer: true})
	h := &hostile{r: r, id: id, rng: rng, c: c, good: c.Accs[:3], bad: c.Accs[3:], names: map[string]int{}}
	p := ports20
	openChannel(c, func(m sdk.Msg) *sdk.Result {
		return txResult(c.Block(c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{m}, Signers: []*verifkit.Account{c.Val}, Fee: anyFee(c, 2_000_000)})))
	}, &p)
	h.urls = c.App.InterfaceRegistry().ListImplementations(sdk.MsgInterfaceProtoName)
	sort.Strings(h.urls)
	h.token = c.Contract("uusdc")
	for _, a := range append(append([]*verifkit.Account{}, h.good...), h.bad...) {
		h.strs = append(h.strs, a.Bech(), a.Eth.Hex())
	}
	for _, m := range []string{"fee_collector", "gov", "opchild", "transfer", "evm", "nope"} {
		h.strs = append(h.strs, authtypes.NewModuleAddress(m).String())
	}
	h.strs = append(h.strs, c.App.AccountKeeper.GetModuleAddress("opchild").String(), sdk.ValAddress(h.bad[0].Acc).String(), "init1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
		verifkit.FeeDenom, "uusdc", "zeta", "ibc/ABCDEF", "evm/"+strings.TrimPrefix(h.token.Hex(), "0x"), "evm/", "evm/0x", "transfer/channel-0/uusdc",
		p.near, p.far, p.port, "transfer", "07-tendermint-0", "connection-0", "09-localhost", "connection-localhost", "icahost", "nft-transfer",
		"", " ", "0", "1", "-1", "0x", "0x00", "115792089237316195423570985008687907853269984665640564039457584007913129639936", "1e99", "NaN", "\x00", "é\u202e", strings.Repeat("9", 100), strings.Repeat("a", 70_000),
		`{"evm":{"message":{"contract_addr":"`+h.token.Hex()+`","input":"0x"}}}`, `{"forward":{"receiver":"`+h.bad[0].Bech()+`","port":"transfer","channel":"channel-0"}}`, `{"evm":{"async_callback":{"id":1,"contract_address":"`+h.token.Hex()+`"}}}`,
		strings.Repeat(`{"a":`, 3000)+"1"+strings.Repeat("}", 3000), "/cosmos.bank.v1beta1.MsgSend", "cosmos.bank.v1beta1.MsgSend")
	h.node = c.NewNode(nil)
	// contracts of theirs
	for _, k := range []string{"revert", "loop", "create-loop", "store-loop", "value-to-module", "destroy", "logs", "dispatch", "grow", "call-loop"} {
		h.traps = append(h.traps, deployEth(c, h.bad[0], trapInit(trapCode(k, collectorAddr, common.BytesToAddress(freshBytes(rng))), h.bad[0].Eth, h.bad[1].Eth)))
	}
	for _, k := range []string{"balance-old", "destroy", "recurse", "recurse-log", "cosmos-closed", "cosmos-nonsense", "cosmos-big-denom", "value-panic", "create-big", "modexp", "registry-store", "cosmos-dispatch", "log-big", "revert-child", "kzg"} {
		h.traps = append(h.traps, deployEth(c, h.bad[1], verifkit.Deployer(costly[k]())))
	}
	for _, t := range h.traps {
		h.strs = append(h.strs, t.Hex(), "evm/"+strings.TrimPrefix(t.Hex(), "0x"), sdk.AccAddress(t[:]).String())
	}
	return h
}

func (h *hostile) pick(l []string) string { return l[h.rng.Intn(len(l))] }

func (h *hostile) bigInt() *big.Int {
	if h.sane && h.rng.Intn(12) > 0 {
		return big.NewInt(1 + h.rng.Int63n(1000))
	}
	switch h.rng.Intn(6) {
	case 0:
		return big.NewInt(0)
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(1+h.rng.Intn(256))), big.NewInt(int64(h.rng.Intn(2))))
	case 2:
		return big.NewInt(-1)
	default:
		return big.NewInt(h.rng.Int63n(1_000_000))
	}
}

// fill puts something into a part of a message.
func (h *hostile) fill(v reflect.Value, name string, me *verifkit.Account, depth int) {
	rng := h.rng
	if !v.CanSet() || strings.HasPrefix(name, "XXX_") {
		return
	}
	switch x := v.Addr().Interface().(type) {
	case *math.Int:
		*x = math.NewIntFromBigInt(h.bigInt())
		return
	case *math.LegacyDec:
		*x = math.LegacyNewDecFromBigInt(new(big.Int).Rem(h.bigInt(), new(big.Int).Lsh(big.NewInt(1), 200)))
		return
	case *time.Time:
		if h.sane {
			*x = h.c.Now.Add(time.Hour)
			return
		}
		*x = time.Unix(rng.Int63n(4e9)-1e8, rng.Int63n(1e9)).UTC()
		return
	case *sdk.Coin:
		*x = sdk.Coin{Denom: h.denom(), Amount: math.NewIntFromBigInt(h.bigInt())}
		return
	case **codectypes.Any:
		*x = h.any(me, depth-1)
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if depth <= 0 || rng.Intn(8) == 0 && !h.sane {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		h.fill(v.Elem(), name, me, depth-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Interface { // one of some
				o, ok := v.Addr().Interface().(interface{ XXX_OneofWrappers() []any })
				if !ok || depth <= 0 {
					continue
				}
				var fit []reflect.Type
				for _, w := range o.XXX_OneofWrappers() {
					if t := reflect.TypeOf(w); t.AssignableTo(v.Field(i).Type()) {
						fit = append(fit, t.Elem())
					}
				}
				if len(fit) > 0 {
					w := reflect.New(fit[rng.Intn(len(fit))])
					h.fill(w.Elem(), "", me, depth-1)
					v.Field(i).Set(w)
				}
				continue
			}
			h.fill(v.Field(i), v.Type().Field(i).Name, me, depth)
		}
	case reflect.String:
		v.SetString(h.str(name, me))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, []int{0, 1, 20, 32, 33, 100, 40_000}[rng.Intn(7)])
			if h.sane {
				b = make([]byte, 20)
			}
			rng.Read(b)
			if rng.Intn(4) == 0 {
				b = []byte(h.pick(h.strs))
			}
			v.SetBytes(b)
			return
		}
		n := rng.Intn(3)
		if h.sane {
			n = 1
		} else if rng.Intn(30) == 0 {
			n = 200
		}
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			h.fill(s.Index(i), name, me, depth-1)
		}
		v.Set(s)
	case reflect.Bool:
		v.SetBool(rng.Intn(2) == 0)
	case reflect.Int32, reflect.Int64:
		v.SetInt([]int64{0, 1, 2, -1, 1 << 31, 1<<31 - 1, rng.Int63n(100)}[rng.Intn(7)])
		if h.sane {
			v.SetInt(rng.Int63n(4))
		} else if v.Kind() == reflect.Int64 && rng.Intn(4) == 0 {
			v.SetInt(rng.Int63() - rng.Int63())
		}
	case reflect.Uint32, reflect.Uint64:
		v.SetUint([]uint64{0, 1, 2, 1<<32 - 1, uint64(rng.Int63n(100))}[rng.Intn(5)])
		if h.sane {
			v.SetUint(uint64(rng.Int63n(4)))
		} else if v.Kind() == reflect.Uint64 && rng.Intn(4) == 0 {
			v.SetUint(rng.Uint64())
		}
	}
}

func (h *hostile) denom() string {
	if h.sane || h.rng.Intn(4) > 0 {
		return h.pick([]string{verifkit.FeeDenom, "uusdc", "zeta", "ibc/ABCDEF", "evm/" + strings.TrimPrefix(h.traps[h.rng.Intn(len(h.traps))].Hex(), "0x")})
	}
	return h.pick(h.strs)
}

var signerFields = map[string]bool{"Sender": true, "Signer": true, "FromAddress": true, "Granter": true, "Grantee": true, "Creator": true, "Owner": true, "Submitter": true, "Proposer": true, "DelegatorAddress": true, "Authority": true, "Admin": true, "Voter": true, "Depositor": true, "Relayer": true}

func (h *hostile) str(name string, me *verifkit.Account) string {
	switch {
	case signerFields[name] && h.rng.Intn(12) > 0:
		return me.Bech()
	case !h.sane && h.rng.Intn(5) == 0:
	case name == "AllowedMessages" || strings.HasSuffix(name, "TypeUrl") || name == "Msg":
		return h.pick(h.urls)
	case name == "Grantee" || name == "Recipient" || name == "ToAddress":
		return h.pick(h.strs[:26])
	case strings.Contains(name, "Addr") || strings.Contains(name, "Receiver") || strings.HasPrefix(name, "To"):
		if h.rng.Intn(2) == 0 {
			return h.traps[h.rng.Intn(len(h.traps))].Hex()
		}
		return h.pick(h.strs[:18])
	case strings.Contains(name, "Denom") || strings.Contains(name, "ClassId"):
		return h.denom()
	case strings.Contains(name, "Channel"):
		return "channel-0"
	case strings.Contains(name, "Port"):
		return h.pick([]string{"transfer", "nft-transfer", "icahost"})
	case strings.Contains(name, "Input") || strings.Contains(name, "Code"):
		return h.pick([]string{"0x", hexBytes(h.input()), "0x5b", "0x60", hexBytes(costly["destroy"]())})
	case strings.Contains(name, "Value") || strings.Contains(name, "Amount"):
		return h.bigInt().String()
	}
	if h.sane {
		return h.pick(h.strs[:40])
	}
	return h.pick(h.strs)
}

func (h *hostile) input() []byte {
	switch h.rng.Intn(4) {
	case 0:
		return pack(erc20ABI, "transfer", h.bad[0].Eth, big.NewInt(1))
	case 1:
		return pack(erc20ABI, "sudoTransfer", h.good[0].Eth, h.bad[0].Eth, big.NewInt(1))
	case 2:
		return nil
	}
	b := make([]byte, h.rng.Intn(200))
	h.rng.Read(b)
	return b
}

func (h *hostile) any(me *verifkit.Account, depth int) *codectypes.Any {
	switch k := h.rng.Intn(12); {
	case k == 0 && !h.sane:
		return nil
	case k == 1 && !h.sane:
		b := make([]byte, h.rng.Intn(50))
		h.rng.Read(b)
		return &codectypes.Any{TypeUrl: h.pick(h.strs), Value: b}
	case k == 2 && !h.sane:
		b := make([]byte, h.rng.Intn(50))
		h.rng.Read(b)
		return &codectypes.Any{TypeUrl: h.pick(h.urls), Value: b}
	case depth <= 0:
		return nil
	}
	m := h.msg(me, depth)
	if m == nil {
		return nil
	}
	a, err := codectypes.NewAnyWithValue(m)
	if err != nil {
		return nil
	}
	return a
}

// msg is a message of any type with anything in it.
func (h *hostile) msg(me *verifkit.Account, depth int) (m sdk.Msg) {
	defer func() {
		if p := recover(); p != nil {
			m = nil
		}
	}()
	url := h.pick(h.urls)
	if h.rng.Intn(3) == 0 {
		url = h.pick([]string{"/minievm.evm.v1.MsgCall", "/minievm.evm.v1.MsgCreate", "/minievm.evm.v1.MsgCreate2", "/cosmos.bank.v1beta1.MsgSend", "/cosmos.bank.v1beta1.MsgMultiSend", "/cosmos.authz.v1beta1.MsgExec", "/cosmos.authz.v1beta1.MsgGrant", "/ibc.applications.transfer.v1.MsgTransfer", "/noble.forwarding.v1.MsgRegisterAccount", "/cosmos.feegrant.v1beta1.MsgGrantAllowance", "/ibc.core.channel.v1.MsgRecvPacket", "/opinit.opchild.v1.MsgInitiateTokenWithdrawal"})
	}
	pm, err := h.c.App.InterfaceRegistry().Resolve(url)
	if err != nil {
		return nil
	}
	h.fill(reflect.ValueOf(pm).Elem(), "", me, depth)
	return pm
}

func (h *hostile) seq(a *verifkit.Account) uint64 {
	if _, ok := h.seqs[a]; !ok {
		h.seqs[a] = h.c.Seq(a.Acc)
	}
	return h.seqs[a]
}

// hostileTx is one transaction, which need not be valid, and what it is.
func (h *hostile) tx() (bz []byte, kind string) {
	rng, c := h.rng, h.c
	h.turn++
	me := h.bad[h.turn%len(h.bad)]
	h.sane = rng.Intn(3) > 0
	defer func() {
		if p := recover(); p != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Printf("not built: %s %.300v\n", kind, p)
			}
			bz, kind = []byte{0}, "garbage"
		}
	}()
	cosmos := func(gas uint64, memo string, msgs ...sdk.Msg) []byte {
		s := h.seq(me)
		if rng.Intn(10) > 0 {
			h.seqs[me]++
		}
		fee := anyFee(c, gas)
		if rng.Intn(15) == 0 && !h.sane {
			fee = sdk.Coins{sdk.Coin{Denom: h.denom(), Amount: math.NewIntFromBigInt(new(big.Int).Abs(h.bigInt()))}}
		}
		return c.Cosmos(verifkit.CosmosTx{Msgs: msgs, Signers: []*verifkit.Account{me}, Seqs: []uint64{s}, Gas: gas, Fee: fee, Memo: memo})
	}
	switch k := rng.Intn(22); {
	case k >= 20 && len(h.old) > 0:
		return h.edited(), "edited"
	case k < 9: // messages
		var msgs []sdk.Msg
		n := 1
		if rng.Intn(6) == 0 {
			n += rng.Intn(5)
		}
		kind = "msg"
		for i := 0; i < n; i++ {
			m := h.msg(me, 5)
			if m == nil {
				continue
			}
			if rng.Intn(8) == 0 {
				x := authz.NewMsgExec(me.Acc, []sdk.Msg{m})
				for d := rng.Intn(30); d > 0 && rng.Intn(5) == 0; d-- {
					x = authz.NewMsgExec(me.Acc, []sdk.Msg{&x})
				}
				m = &x
				kind = "exec"
			} else if n == 1 {
				kind = sdk.MsgTypeURL(m)
			}
			msgs = append(msgs, m)
		}
		return cosmos(uint64(200_000+rng.Intn(4_000_000)), h.pick([]string{"", "", "", "", "", h.pick(h.strs)}), msgs...), kind
	case k < 11: // trap transfers
		t := "evm/" + strings.TrimPrefix(h.traps[rng.Intn(len(h.traps))].Hex(), "0x")
		coins := sdk.NewCoins(sdk.NewInt64Coin(t, 5), sdk.NewInt64Coin(verifkit.FeeDenom, 1))
		return cosmos(3_000_000, "", banktypes.NewMsgSend(me.Acc, h.good[rng.Intn(3)].Acc, coins)), "trap-send"
	case k < 15: // calls of their contracts
		t := h.traps[rng.Intn(len(h.traps))]
		in := h.input()
		if rng.Intn(2) == 0 {
			in = pack(erc20ABI, "sudoTransfer", h.good[0].Eth, h.bad[0].Eth, big.NewInt(1))
		}
		gas := uint64(100_000 + rng.Intn(4_000_000))
		tx := c.SignEth(me, verifkit.EthTx{Type: uint8(rng.Intn(3)), Nonce: h.seq(me), To: &t, Data: in, Value: big.NewInt(rng.Int63n(2)), Gas: gas, FeeCap: gasPrice(c)})
		_, bz, err := c.EthToCosmos(tx)
		must(err)
		h.seqs[me]++
		return bz, "trap-call"
	case k < 17: // extremes
		e := verifkit.EthTx{Type: uint8(rng.Intn(3)), Nonce: h.seq(me), Gas: 500_000, FeeCap: gasPrice(c), Value: new(big.Int)}
		t := h.traps[rng.Intn(len(h.traps))]
		if rng.Intn(2) == 0 {
			e.To = &t
		}
		kind = "eth"
		for _, f := range []func(){
			func() { e.Gas = []uint64{0, 1, 20_999, 1<<64 - 1, 1 << 63, 1_500_000_000}[rng.Intn(6)]; kind += "-gas" },
			func() { e.FeeCap = new(big.Int).Abs(h.bigInt()); kind += "-cap" },
			func() { e.TipCap = new(big.Int).Abs(h.bigInt()); kind += "-tip" },
			func() { e.Value = new(big.Int).Abs(h.bigInt()); kind += "-value" },
			func() { e.Nonce = []uint64{1<<64 - 1, 0, e.Nonce + 1, 1 << 63}[rng.Intn(4)]; kind += "-nonce" },
			func() { e.Data = make([]byte, rng.Intn(120_000)); rng.Read(e.Data); kind += "-data" },
			func() {
				for i := rng.Intn(2000); i > 0; i-- {
					e.AL = append(e.AL, coretypes.AccessTuple{Address: common.BytesToAddress(freshBytes(rng)), StorageKeys: make([]common.Hash, rng.Intn(5))})
				}
				kind += "-list"
			},
			func() { e.ChainID = new(big.Int).Abs(h.bigInt()); kind += "-chain" },
			func() { e.Data = costly["create"](); e.To = nil; e.Gas = 3_000_000; kind += "-init" },
		} {
			if rng.Intn(5) == 0 {
				f()
			}
		}
		tx := c.SignEth(me, e)
		bz, err := h.convert(tx, kind)
		if err != nil {
			return []byte{0}, kind + "-refused"
		}
		if e.Nonce == h.seq(me) {
			h.seqs[me]++
		}
		return bz, kind
	case k < 18 && len(h.old) > 0: // an old transaction, changed
		b := append([]byte{}, h.old[rng.Intn(len(h.old))]...)
		for i := 1 + rng.Intn(4); i > 0 && len(b) > 0; i-- {
			at := rng.Intn(len(b))
			switch rng.Intn(5) {
			case 0:
				b[at] ^= 1 << rng.Intn(8)
			case 1:
				b = b[:at]
			case 2:
				b = append(b[:at], append([]byte{byte(rng.Intn(256))}, b[at:]...)...)
			case 3:
				b = append(b, b[at:]...)
			case 4:
				b[at] = 0xff
			}
		}
		return b, "mutated"
	case k < 19: // a well-formed envelope of anything
		var t sdktx.Tx
		h.fill(reflect.ValueOf(&t).Elem(), "", me, 6)
		b, err := proto.Marshal(&t)
		must(err)
		return b, "envelope"
	default:
		b := make([]byte, rng.Intn(300))
		rng.Read(b)
		return b, "garbage"
	}
}

// edited is an old transaction with a part of its envelope changed.
func (h *hostile) edited() []byte {
	rng := h.rng
	var raw sdktx.TxRaw
	var ai sdktx.AuthInfo
	var body sdktx.TxBody
	for i := 0; ; i++ {
		b := h.old[rng.Intn(len(h.old))]
		if raw.Unmarshal(b) == nil && ai.Unmarshal(raw.AuthInfoBytes) == nil && body.Unmarshal(raw.BodyBytes) == nil && len(ai.SignerInfos) > 0 {
			break
		}
		if i > 20 {
			return []byte{1}
		}
	}
	n := rng.Intn(len(ai.SignerInfos))
	si := ai.SignerInfos[n]
	key := func() []byte {
		b := make([]byte, []int{0, 1, 20, 32, 33, 33, 33, 33, 34, 65, 200}[rng.Intn(11)])
		rng.Read(b)
		if len(b) > 0 && rng.Intn(3) > 0 {
			b[0] = byte(2 + rng.Intn(2))
		}
		return b
	}
	var pub func(depth int) *codectypes.Any
	pub = func(depth int) *codectypes.Any {
		var m proto.Message
		switch rng.Intn(8) {
		case 0:
			m = &secp256k1.PubKey{Key: key()}
		case 1:
			m = &ed25519.PubKey{Key: key()}
		case 2: // secp256r1 with a key of any bytes
			b := key()
			return &codectypes.Any{TypeUrl: "/cosmos.crypto.secp256r1.PubKey", Value: append([]byte{10, byte(len(b))}, b...)}
		case 3, 4:
			l := &multisig.LegacyAminoPubKey{Threshold: uint32(rng.Intn(4))}
			for i := rng.Intn(4); i > 0 && depth > 0; i-- {
				l.PubKeys = append(l.PubKeys, pub(depth-1))
			}
			m = l
		default:
			m = &ethsecp256k1.PubKey{Key: key()}
		}
		b, err := proto.Marshal(m)
		must(err)
		return &codectypes.Any{TypeUrl: "/" + proto.MessageName(m), Value: b}
	}
	var mode func(depth int) *sdktx.ModeInfo
	mode = func(depth int) *sdktx.ModeInfo {
		if depth > 0 && rng.Intn(3) == 0 {
			m := &sdktx.ModeInfo_Multi{}
			if rng.Intn(3) > 0 {
				m.Bitarray = &cryptotypes.CompactBitArray{ExtraBitsStored: uint32(rng.Intn(20)), Elems: make([]byte, rng.Intn(4))}
				rng.Read(m.Bitarray.Elems)
			}
			for i := rng.Intn(3); i > 0; i-- {
				m.ModeInfos = append(m.ModeInfos, mode(depth-1))
			}
			return &sdktx.ModeInfo{Sum: &sdktx.ModeInfo_Multi_{Multi: m}}
		}
		return &sdktx.ModeInfo{Sum: &sdktx.ModeInfo_Single_{Single: &sdktx.ModeInfo_Single{Mode: []signing.SignMode{0, 1, 2, 3, 127, 191, 9999, 9999, -1, 1 << 30}[rng.Intn(10)]}}}
	}
	for i := 1 + rng.Intn(2); i > 0; i-- {
		switch rng.Intn(14) {
		case 0, 1, 2, 3:
			si.PublicKey = pub(3)
		case 4, 5:
			si.ModeInfo = mode(4)
		case 6:
			si.ModeInfo = nil
		case 7:
			si.PublicKey = nil
		case 8:
			si.Sequence = []uint64{0, 1<<64 - 1, si.Sequence + 1}[rng.Intn(3)]
		case 9:
			ai.SignerInfos = append(ai.SignerInfos, si)
		case 10:
			ai.Fee = nil
		case 11:
			if ai.Fee != nil {
				ai.Fee.GasLimit = []uint64{0, 1, 1<<64 - 1, 1 << 63}[rng.Intn(4)]
			}
		case 12:
			raw.Signatures[0] = key()
		case 13:
			body.Memo = []string{"", "{}", `{"type":2}`, `{"type":0,"gas_fee_cap":"0x","gas_tip_cap":"-1"}`, `{"type":2,"gas_fee_cap":"0x1","gas_tip_cap":"0x1"}`, `{"type":255,"gas_fee_cap":"0x1","gas_tip_cap":"0x1"}`, `{"type":1,"gas_fee_cap":null,"gas_tip_cap":null}`}[rng.Intn(7)]
		}
	}
	var err error
	raw.AuthInfoBytes, err = ai.Marshal()
	must(err)
	raw.BodyBytes, err = body.Marshal()
	must(err)
	b, err := raw.Marshal()
	must(err)
	return b
}

// convert takes a signed ethereum transaction as eth_sendRawTransaction does.
func (h *hostile) convert(tx *coretypes.Transaction, kind string) (bz []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			h.r.Violate(h.id, "convert-panic", "converting an ethereum transaction (%s: gas %d, fee cap %s, tip cap %s, value %s, nonce %d): %v", kind, tx.Gas(), tx.GasFeeCap(), tx.GasTipCap(), tx.Value(), tx.Nonce(), p)
			err = fmt.Errorf("panic")
		}
	}()
	_, bz, err = h.c.EthToCosmos(tx)
	return bz, err
}

func l01Hostile(r *R, id string, rng *rand.Rand) {
	h := newHostile(r, id, rng)
	c := h.c
	for b := r.N(14, 60); b > 0; b-- {
		h.seqs = map[*verifkit.Account]uint64{}
		if !h.block() {
			return
		}
	}
	for k, n := range h.names {
		r.Count("hostile_"+k, n)
	}
	if c.HaltErr != nil {
		r.Violate(id, "halt", "%v", c.HaltErr)
	}
}

// block runs hostile transactions among honest ones.
func (h *hostile) block() bool {
	r, rng, c, id := h.r, h.rng, h.c, h.id
	type item struct {
		bz    []byte
		kind  string
		probe func(res *abci.ExecTxResult)
	}
	var items []item
	ctx := c.QCtx()
	// the honest
	to := common.BytesToAddress(freshBytes(rng))
	eth := c.SignEth(h.good[0], verifkit.EthTx{Type: 2, Nonce: c.Seq(h.good[0].Acc), To: &to, Value: big.NewInt(1_000_000_000_000_000), Gas: 400_000, FeeCap: gasPrice(c)})
	_, ethBz, err := c.EthToCosmos(eth)
	must(err)
	to2, to3 := common.BytesToAddress(freshBytes(rng)), common.BytesToAddress(freshBytes(rng))
	send := c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{banktypes.NewMsgSend(h.good[1].Acc, to2[:], sdk.NewCoins(sdk.NewInt64Coin("uusdc", 4321)))}, Signers: []*verifkit.Account{h.good[1]}, Gas: 600_000, Fee: anyFee(c, 600_000)})
	tok := h.token
	erc := c.Cosmos(verifkit.CosmosTx{Msgs: []sdk.Msg{&evmtypes.MsgCall{Sender: h.good[2].Bech(), ContractAddr: tok.Hex(), Input: hexBytes(pack(erc20ABI, "transfer", to3, big.NewInt(777))), Value: math.ZeroInt()}}, Signers: []*verifkit.Account{h.good[2]}, Gas: 600_000, Fee: anyFee(c, 600_000)})
	seqs := []uint64{}
	for _, g := range h.good {
		seqs = append(seqs, c.Seq(g.Acc))
	}
	_ = ctx
	for i, bz := range [][]byte{ethBz, send, erc} {
		items = append(items, item{bz: bz, kind: []string{"transfer", "send", "call"}[i]})
	}
	var kinds []string
	for i := 1 + rng.Intn(14); i > 0; i-- {
		bz, kind := h.tx()
		kinds = append(kinds, kind)
		items = append(items, item{bz: bz, kind: kind})
		if kind != "garbage" && kind != "mutated" {
			h.old = append(h.old, bz)
			if len(h.old) > 40 {
				h.old = h.old[1:]
			}
		}
		if rng.Intn(6) == 0 { // again
			items = append(items, item{bz: bz, kind: kind + "-again"})
		}
	}
	if rng.Intn(3) > 0 { // in any order, of which theirs may depend on each other
		rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	} else if rng.Intn(2) == 0 { // the honest last
		items = append(items[3:], items[:3]...)
	}
	var txs [][]byte
	for _, it := range items {
		txs = append(txs, it.bz)
	}
	// the mempool sees them first
	for _, it := range items {
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Violate(id, "check-panic|"+it.kind, "CheckTx of a transaction (%s) panicked: %v", it.kind, p)
				}
			}()
			t := time.Now()
			res, err := c.Check(it.bz)
			r.Count("checked", 1)
			if d := time.Since(t); d > 30*time.Second {
				r.Violate(id, "check-slow|"+it.kind, "CheckTx of a transaction (%s) took %s: %v %v", it.kind, d, res, err)
			}
		}()
	}
	res, in, stuck := watched(c, 120*time.Second, txs...)
	r.Eval(len(txs))
	if stuck || res == nil {
		r.Violate(id, "hostile-halt", "a block of %v was not done after %s: %.1500v", kinds, in, c.HaltErr)
		return false
	}
	r.Count("blocks", 1)
	for i, it := range items {
		t := res.TxResults[i]
		out := "failed"
		switch {
		case t.Code == 0:
			out = "done"
		case len(t.Events) == 0:
			out = "rejected"
		case t.Code == 111222:
			out = "panicked"
		}
		base := it.kind
		if strings.HasPrefix(base, "/") {
			r.Count("messages_"+out, 1)
		} else if !strings.HasPrefix(base, "eth") {
			h.names[base+"_"+out]++
		} else {
			h.names["eth_"+out]++
		}
		r.Distinct("hostile|" + it.kind + "|" + out + "|" + fmt.Sprint(t.Code))
		honest := it.kind == "transfer" || it.kind == "send" || it.kind == "call"
		if honest && t.Code != 0 {
			r.Violate(id, "hostile-honest", "beside %v an honest %s failed: code %d %.300s", kinds, it.kind, t.Code, t.Log)
		}
	}
	// they took effect
	ctx = c.QCtx()
	for i, g := range h.good {
		if s := c.Seq(g.Acc); s != seqs[i]+1 {
			r.Violate(id, "hostile-honest", "beside %v the sequence of an honest account went from %d to %d", kinds, seqs[i], s)
		}
	}
	if b := c.Bal(sdk.AccAddress(to2[:]), "uusdc"); b.LT(math.NewInt(4321)) {
		r.Violate(id, "hostile-honest", "beside %v an honest send left the recipient %s", kinds, b)
	}
	if b := c.Bal(sdk.AccAddress(to3[:]), "uusdc"); b.LT(math.NewInt(777)) {
		r.Violate(id, "hostile-honest", "beside %v an honest ERC20 transfer left the recipient %s", kinds, b)
	}
	if b := c.Bal(sdk.AccAddress(to[:]), verifkit.FeeDenom); !b.IsPositive() {
		r.Violate(id, "hostile-honest", "beside %v an honest transfer left the recipient %s", kinds, b)
	}
	var got map[string]any
	deadline := time.Now().Add(20 * time.Second)
	for {
		got = nil
		if err := h.node.Client.CallContext(context.Background(), &got, "eth_getTransactionReceipt", eth.Hash()); err == nil && got != nil {
			break
		}
		if time.Now().After(deadline) {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if got == nil || got["status"] != "0x1" {
		r.Violate(id, "hostile-index", "beside %v the receipt of an honest transfer is %v", kinds, got)
	}
	r.Count("honest", 3)
	return true
}
