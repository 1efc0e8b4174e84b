package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"

	sdk "github.com/cosmos/cosmos-sdk/types"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// X10: the binary as it is shipped, from init to restart, operated by its command line alone.

func init() { monitors["X10"] = monX10 }

// shipped is a node in its own process with its own home.
type shipped struct {
	r      *R
	id     string
	rng    *rand.Rand
	bin    string
	home   string
	chain  string
	denom  string
	rpc    string // host:port
	eth    string
	ws     string
	rest   string
	grpc   string
	p2p    string
	proc   *exec.Cmd
	exited chan error
	log    *os.File
	ops    []string
}

func monX10(r *R) {
	r.Rule = "distinct = (what was typed, how it went)"
	bin := os.Getenv("VERIF_MINITIAD")
	if bin == "" {
		dir, err := os.MkdirTemp("", "x10-")
		must(err)
		defer os.RemoveAll(dir)
		bin = filepath.Join(dir, "minitiad")
		cmd := exec.Command("go", "build", "-tags", "ledger test_ledger_mock", "-o", bin, "./cmd/minitiad")
		cmd.Dir = os.Getenv("VERIF_REPO")
		if cmd.Dir == "" {
			cmd.Dir = "/repo"
		}
		if out, err := cmd.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("build: %v %s", err, out))
		}
	}
	for i := 0; i < r.N(2, 10); i++ {
		id := fmt.Sprint("node/", i)
		r.Case(id, func(rng *rand.Rand) { x10Node(r, bin, id, rng) })
	}
}

func (n *shipped) bad(sig, f string, a ...any) {
	n.r.Violate(n.id, sig, "chain %s, denom %s, commands %s: %s", n.chain, n.denom, strings.Join(n.ops, " ; "), fmt.Sprintf(f, a...))
}

// cli runs a command; its output, what it said otherwise and whether it went well.
func (n *shipped) cli(args ...string) (string, string, bool) {
	ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, n.bin, append(args, "--home", n.home)...)
	cmd.Env = append(os.Environ(), "HOME="+n.home)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if strings.Contains(errs.String(), "goroutine 1 [") {
		n.bad("panic", "%v panics: %.600s", args, errs.String())
	}
	n.r.Eval(1)
	return out.String(), errs.String(), err == nil
}

func (n *shipped) must(args ...string) string {
	out, errs, ok := n.cli(args...)
	if !ok {
		n.bad("command", "%v fails: %.300s", args, errs)
	}
	return out
}

func (n *shipped) edit(file string, pairs ...string) {
	f := filepath.Join(n.home, "config", file)
	bz, err := os.ReadFile(f)
	must(err)
	s := string(bz)
	for i := 0; i < len(pairs); i += 2 {
		s = regexp.MustCompile("(?m)"+pairs[i]).ReplaceAllString(s, pairs[i+1])
	}
	must(os.WriteFile(f, []byte(s), 0o600))
}

// start runs the node until it makes blocks.
func (n *shipped) start() bool {
	for try := 0; try < 3; try++ {
		n.rpc, n.eth, n.ws, n.rest, n.grpc, n.p2p = freePort(), freePort(), freePort(), freePort(), freePort(), freePort()
		// placeholders of the documentation are not part of a plain build
		n.edit("app.toml", `^swagger = .*`, `swagger = false`,
			`^address = "[^"]*:(8545|ETH\d*)".*`, `address = "ETH"`, `^address-ws = .*`, `address-ws = "`+n.ws+`"`)
		n.edit("config.toml", `^timeout_commit = .*`, `timeout_commit = "150ms"`, `^create_empty_blocks_interval = .*`, `create_empty_blocks_interval = "500ms"`, `^pprof_laddr = .*`, `pprof_laddr = ""`, `^indexer = .*`, `indexer = "kv"`)
		s, err := os.ReadFile(filepath.Join(n.home, "config", "app.toml"))
		must(err)
		// the address below the header of the section
		i := bytes.Index(s, []byte("\n[json-rpc]"))
		if i < 0 {
			panic("no json-rpc section")
		}
		tail := regexp.MustCompile(`(?m)^address = .*`).ReplaceAll(s[i:], []byte(`address = "`+n.eth+`"`))
		must(os.WriteFile(filepath.Join(n.home, "config", "app.toml"), append(append([]byte{}, s[:i]...), tail...), 0o600))

		n.log, err = os.Create(filepath.Join(n.home, "log"))
		must(err)
		n.proc = exec.Command(n.bin, "start", "--home", n.home, "--rpc.laddr", "tcp://"+n.rpc, "--p2p.laddr", "tcp://"+n.p2p, "--grpc.address", n.grpc, "--api.address", "tcp://"+n.rest,
			"--minimum-gas-prices", "0"+n.denom)
		n.proc.Env = append(os.Environ(), "HOME="+n.home)
		n.proc.Stdout, n.proc.Stderr = n.log, n.log
		must(n.proc.Start())
		p := n.proc
		exited := make(chan error, 1)
		n.exited = exited
		go func() { exited <- p.Wait() }()
		first := int64(-1)
		for end := time.Now().Add(90 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
			select {
			case err := <-exited:
				exited <- err
				end = time.Now()
				continue
			default:
			}
			h := n.height()
			if h > 0 && first < 0 {
				first = h
			}
			if first > 0 && h > first+1 {
				return true
			}
		}
		n.stop(syscall.SIGKILL)
		bz, _ := os.ReadFile(filepath.Join(n.home, "log"))
		if !bytes.Contains(bz, []byte("address already in use")) {
			if len(bz) > 1500 {
				bz = bz[len(bz)-1500:]
			}
			n.bad("start", "the node does not make blocks: %s", bz)
			return false
		}
	}
	return false
}

func (n *shipped) stop(sig syscall.Signal) {
	if n.proc == nil {
		return
	}
	_ = n.proc.Process.Signal(sig)
	select {
	case <-n.exited:
	case <-time.After(40 * time.Second):
		n.bad("stop", "the node does not stop")
		_ = n.proc.Process.Kill()
		<-n.exited
	}
	n.proc = nil
	n.log.Close()
}

func (n *shipped) height() int64 {
	var h hexutil.Uint64
	if n.ask(&h, "eth_blockNumber") != nil {
		return -1
	}
	return int64(h)
}

// ask asks the JSON-RPC server of the node.
func (n *shipped) ask(out any, m string, args ...any) error {
	cl := http.Client{Timeout: 30 * time.Second}
	resp, err := cl.Post("http://"+n.eth, "application/json", strings.NewReader(req9(1, m, args...)))
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	var a answer9
	if err := json.NewDecoder(resp.Body).Decode(&a); err != nil {
		return err
	}
	if a.Error != nil {
		return fmt.Errorf("%s: %s", m, a.Error.Message)
	}
	return json.Unmarshal(a.Result, out)
}

func (n *shipped) get(url string, out any) error {
	cl := http.Client{Timeout: 30 * time.Second}
	resp, err := cl.Get("http://" + url)
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	bz, err := io.ReadAll(resp.Body)
	if err != nil {
		return err
	}
	return json.Unmarshal(bz, out)
}

type result10 struct {
	Result struct {
		Height   string
		TxResult struct {
			Code   int
			Log    string
			Events []struct {
				Type       string
				Attributes []struct{ Key, Value string }
			}
		} `json:"tx_result"`
	}
}

func (t *result10) attr(ty, key string) string {
	for _, e := range t.Result.TxResult.Events {
		if e.Type == ty {
			for _, a := range e.Attributes {
				if a.Key == key {
					return a.Value
				}
			}
		}
	}
	return ""
}

// tx types a transaction command and waits for the block it is in; nil when it was refused at once.
func (n *shipped) tx(args ...string) *result10 {
	n.ops = append(n.ops, strings.Join(args, " "))
	out, _, ok := n.cli(append(append([]string{"tx"}, args...), "--from", "user", "--keyring-backend", "test", "--chain-id", n.chain, "--node", "tcp://"+n.rpc, "--gas", "2000000", "-y", "--output", "json")...)
	if !ok {
		return nil
	}
	var sent struct {
		Code   int
		TxHash string
	}
	if i := strings.IndexByte(out, '{'); i < 0 || json.Unmarshal([]byte(out[i:]), &sent) != nil || sent.Code != 0 {
		return nil
	}
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
		var t result10
		if n.get(n.rpc+"/tx?hash=0x"+sent.TxHash, &t) == nil && t.Result.Height != "" {
			return &t
		}
	}
	n.bad("lost", "transaction %s was accepted but is in no block", sent.TxHash)
	return nil
}

// the contract stores the first word of its input and keeps what it is paid
const runtime10 = "60003560005500"

// code10 deploys all that follows it
const code10 = "600d380380600d6000396000f3"

func x10Node(r *R, bin, id string, rng *rand.Rand) {
	home, err := os.MkdirTemp("", "x10home-")
	must(err)
	defer os.RemoveAll(home)
	denoms := []string{"umin", "ufee", "GAS", "a1234/x"}
	n := &shipped{r: r, id: id, rng: rng, bin: bin, home: home, chain: fmt.Sprintf("mini-%d", 1+rng.Intn(100000)), denom: denoms[rng.Intn(len(denoms))]}
	defer n.stop(syscall.SIGKILL)
	init := []string{"init", "node", "--chain-id", n.chain}
	if n.denom != "umin" || rng.Intn(2) == 0 {
		init = append(init, "--denom", n.denom)
	}
	n.must(init...)
	n.must("keys", "add", "val", "--keyring-backend", "test", "--output", "json")
	key, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprint(rng.Int63()))))
	must(err)
	user := crypto.PubkeyToAddress(key.PublicKey)
	n.must("keys", "import-hex", "user", hex.EncodeToString(crypto.FromECDSA(key)), "--key-type", "eth_secp256k1", "--keyring-backend", "test")
	shown := strings.TrimSpace(n.must("keys", "show", "user", "-a", "--keyring-backend", "test"))
	bech := sdk.MustBech32ifyAddressBytes("init", user.Bytes())
	if shown != bech {
		n.bad("key", "the key of %s is shown as %s", bech, shown)
		return
	}
	funds := int64(1_000_000_000 + rng.Intn(1_000_000_000))
	n.must("genesis", "add-genesis-account", bech, fmt.Sprintf("%d%s,777other", funds, n.denom), "--keyring-backend", "test")
	n.must("genesis", "add-genesis-validator", "val", "--keyring-backend", "test")
	n.must("genesis", "validate")
	var gen struct {
		ChainID       string `json:"chain_id"`
		InitialHeight int64  `json:"initial_height"`
		AppState      struct {
			EVM struct {
				Params struct {
					FeeDenom string `json:"fee_denom"`
				}
			}
			OPChild struct {
				Validators []json.RawMessage
				Params     struct {
					Admin     string
					Executors []string `json:"bridge_executors"`
				}
			} `json:"opchild"`
		} `json:"app_state"`
	}
	bz, err := os.ReadFile(filepath.Join(home, "config", "genesis.json"))
	must(err)
	if err := json.Unmarshal(bz, &gen); err != nil || gen.ChainID != n.chain || gen.InitialHeight != 1 || gen.AppState.EVM.Params.FeeDenom != n.denom || len(gen.AppState.OPChild.Validators) != 1 {
		n.bad("genesis", "the genesis file is of chain %s at %d, with fees in %s and %d validators (%v)", gen.ChainID, gen.InitialHeight, gen.AppState.EVM.Params.FeeDenom, len(gen.AppState.OPChild.Validators), err)
		return
	}
	if !n.start() {
		return
	}

	// the interface of Ethereum tells of the chain which was asked for
	var cid hexutil.Big
	want := evmtypes.ConvertCosmosChainIDToEthereumChainID(n.chain)
	if err := n.ask(&cid, "eth_chainId"); err != nil || cid.ToInt().Cmp(want) != 0 {
		n.bad("chain-id", "eth_chainId of %s is %v: %v", n.chain, cid.ToInt(), err)
	}
	heads := make(chan map[string]any, 10000)
	wctx, wstop := context.WithCancel(context.Background())
	defer wstop()
	wcl, err := rpc.DialWebsocket(wctx, "ws://"+n.ws, "")
	if err != nil {
		n.bad("ws", "no websocket: %v", err)
	} else {
		defer wcl.Close()
		if _, err := wcl.EthSubscribe(wctx, heads, "newHeads"); err != nil {
			n.bad("ws", "no subscription: %v", err)
		}
	}

	type deployed struct {
		addr common.Address
		code string
		slot common.Hash
		bal  int64
	}
	var all []*deployed
	spent := int64(0)
	var receipts []common.Hash
	random := func(l int) string {
		b := make([]byte, l)
		rng.Read(b)
		return hex.EncodeToString(b)
	}
	create := func(two bool) {
		file := filepath.Join(home, "code.bin")
		tail, input := runtime10+random(rng.Intn(40)), random(rng.Intn(40))
		must(os.WriteFile(file, []byte(code10+tail), 0o600))
		value := int64(rng.Intn(2) * rng.Intn(100000))
		args := []string{"evm", "create", file, "--input", "0x" + input, "--value", fmt.Sprint(value)}
		salt := rng.Uint64()
		if two {
			args = append([]string{"evm", "create2", fmt.Sprint(salt)}, args[2:]...)
		}
		t := n.tx(args...)
		if t == nil || t.Result.TxResult.Code != 0 {
			n.bad("create", "%v is refused: %+v", args, t)
			return
		}
		addr := common.HexToAddress(t.attr("create", "contract"))
		d := &deployed{addr: addr, code: "0x" + tail + input, bal: value}
		spent += value
		if two {
			init, _ := hex.DecodeString(code10 + tail + input)
			var s [32]byte
			new(big.Int).SetUint64(salt).FillBytes(s[:])
			if want := crypto.CreateAddress2(user, s, crypto.Keccak256(init)); want != addr {
				n.bad("create2", "the contract is at %s and not at %s", addr, want)
			}
		}
		all = append(all, d)
		r.Distinct(fmt.Sprintf("create|%v|%v|%v", two, value > 0, len(input) > 0))
	}
	call := func() {
		d := all[rng.Intn(len(all))]
		value := int64(rng.Intn(2) * rng.Intn(100000))
		input := random(32 + rng.Intn(20))
		to := d.addr.Hex()
		if rng.Intn(3) == 0 {
			to = sdk.MustBech32ifyAddressBytes("init", d.addr.Bytes())
		}
		t := n.tx("evm", "call", to, "0x"+input, "--value", fmt.Sprint(value))
		if t == nil || t.Result.TxResult.Code != 0 {
			n.bad("call", "refused: %+v", t)
			return
		}
		d.slot = common.HexToHash(input[:64])
		d.bal += value
		spent += value
		r.Distinct(fmt.Sprintf("call|%v|%v", value > 0, to[:1]))
	}
	// what makes no sense is refused in words, and does nothing
	senseless := func() {
		file := filepath.Join(home, "code.bin")
		must(os.WriteFile(file, []byte(code10+runtime10), 0o600))
		big := new(big.Int).Lsh(big.NewInt(1), uint(256+rng.Intn(100))).String()
		to := common.Address{1, 2}.Hex()
		l := [][]string{
			{"evm", "call", to, "0x", "--value=-1"}, {"evm", "call", to, "0x", "--value", big}, {"evm", "call", to, "0x", "--value=-" + big}, {"evm", "call", to, "0x", "--value", "1x"},
			{"evm", "call", to, "0x1"}, {"evm", "call", "init1", "0x"}, {"evm", "call", to, "0x", "--value", fmt.Sprint(funds * 2)},
			{"evm", "create", file, "--value", big}, {"evm", "create", file, "--value=-5"}, {"evm", "create", file, "--input", "zz"}, {"evm", "create", file + "x"},
			{"evm", "create2", "-1", file}, {"evm", "create2", "18446744073709551616", file}, {"evm", "create2", "1", file, "--value", big},
		}
		a := l[rng.Intn(len(l))]
		t := n.tx(a...)
		if t != nil && t.Result.TxResult.Code == 0 {
			n.bad("senseless", "%v is done", a)
		}
		r.Distinct(fmt.Sprintf("senseless|%.40v", a))
	}
	raw := func() {
		var nonce hexutil.Uint64
		if err := n.ask(&nonce, "eth_getTransactionCount", user, "latest"); err != nil {
			n.bad("nonce", "%v", err)
			return
		}
		d := all[rng.Intn(len(all))]
		word := random(32)
		data, _ := hex.DecodeString(word)
		tx, err := coretypes.SignNewTx(key, coretypes.LatestSignerForChainID(want), &coretypes.DynamicFeeTx{ChainID: want, Nonce: uint64(nonce), GasTipCap: big.NewInt(0), GasFeeCap: big.NewInt(0), Gas: 1000000, To: &d.addr, Value: big.NewInt(0), Data: data})
		must(err)
		bz, _ := tx.MarshalBinary()
		n.ops = append(n.ops, "eth_sendRawTransaction "+tx.Hash().Hex())
		var h common.Hash
		if err := n.ask(&h, "eth_sendRawTransaction", hexutil.Bytes(bz)); err != nil || h != tx.Hash() {
			n.bad("raw", "%v %s", err, h)
			return
		}
		for end := time.Now().Add(60 * time.Second); ; time.Sleep(100 * time.Millisecond) {
			var rec *struct{ Status hexutil.Uint64 }
			if err := n.ask(&rec, "eth_getTransactionReceipt", h); err == nil && rec != nil {
				if rec.Status != 1 {
					n.bad("raw", "%s failed", h)
				}
				break
			}
			if time.Now().After(end) {
				n.bad("lost", "%s was accepted but is in no block", h)
				return
			}
		}
		d.slot = common.HexToHash(word)
		receipts = append(receipts, h)
		r.Distinct("raw")
	}
	// every interface tells the state which the commands typed so far make
	check := func(when string) {
		for _, d := range all {
			var code hexutil.Bytes
			var slot common.Hash
			if err := n.ask(&code, "eth_getCode", d.addr, "latest"); err != nil || code.String() != d.code {
				n.bad("code", "%s: code of %s is %s and not %s (%v)", when, d.addr, code, d.code, err)
			}
			if err := n.ask(&slot, "eth_getStorageAt", d.addr, "0x0", "latest"); err != nil || slot != d.slot {
				n.bad("state", "%s: state of %s is %s and not %s (%v)", when, d.addr, slot, d.slot, err)
			}
			var got struct{ Value string }
			out := n.must("query", "evm", "state", d.addr.Hex(), common.Hash{}.Hex(), "--node", "tcp://"+n.rpc, "--output", "json")
			if json.Unmarshal([]byte(out), &got) != nil || common.HexToHash(got.Value) != d.slot {
				n.bad("state", "%s: query evm state of %s: %s and not %s", when, d.addr, out, d.slot)
			}
			n.balance(when, d.addr, d.bal)
		}
		n.balance(when, user, funds-spent)
		for _, h := range receipts {
			var rec *struct{ TransactionHash common.Hash }
			if err := n.ask(&rec, "eth_getTransactionReceipt", h); err != nil || rec == nil || rec.TransactionHash != h {
				n.bad("receipt", "%s: receipt of %s: %v %v", when, h, rec, err)
			}
		}
	}
	create(rng.Intn(2) == 0)
	if len(all) == 0 {
		return
	}
	for i := 0; i < r.N(7, 25); i++ {
		switch rng.Intn(8) {
		case 0:
			create(false)
		case 1:
			create(true)
		case 2, 3:
			call()
		case 4, 5:
			senseless()
		default:
			raw()
		}
	}
	check("before the restart")
	last := int64(0)
	for len(heads) > 0 {
		h := <-heads
		num := int64(hexutil.MustDecodeUint64(h["number"].(string)))
		if last > 0 && num != last+1 {
			n.bad("heads", "block %d is announced after %d", num, last)
		}
		last = num
		var b map[string]any
		if err := n.ask(&b, "eth_getBlockByNumber", h["number"], false); err != nil || b["hash"] != h["hash"] || b["stateRoot"] != h["stateRoot"] {
			n.bad("heads", "block %d is announced as %v, and is %v (%v)", num, h, b, err)
		}
		r.Count("heads", 1)
	}
	if last == 0 {
		n.bad("heads", "no block is announced")
	}
	h := n.height()
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[rng.Intn(3)]
	n.ops = append(n.ops, sig.String())
	n.stop(sig)
	out := n.must("export")
	var exp struct {
		ChainID  string `json:"chain_id"`
		AppState struct {
			EVM struct {
				KeyValues []struct{ Key, Value string } `json:"key_values"`
			}
		} `json:"app_state"`
	}
	if i := strings.IndexByte(out, '{'); i < 0 || json.Unmarshal([]byte(out[i:]), &exp) != nil || exp.ChainID != n.chain || len(exp.AppState.EVM.KeyValues) == 0 {
		n.bad("export", "the export is of chain %q with %d entries: %.200s", exp.ChainID, len(exp.AppState.EVM.KeyValues), out)
	}
	if !n.start() {
		return
	}
	if got := n.height(); got <= h {
		n.bad("restart", "the chain is at %d after it was at %d", got, h)
	}
	check("after " + sig.String())
	call()
	raw()
	check("at the end")
	r.Distinct("restart|" + sig.String())
	r.Count("nodes", 1)
}

// balance is the same by every way there is to ask.
func (n *shipped) balance(when string, a common.Address, want int64) {
	bech := sdk.MustBech32ifyAddressBytes("init", a.Bytes())
	var cli, rest struct {
		Balances []struct{ Denom, Amount string }
	}
	out := n.must("query", "bank", "balances", bech, "--node", "tcp://"+n.rpc, "--output", "json")
	must(json.Unmarshal([]byte(out), &cli))
	if err := n.get(n.rest+"/cosmos/bank/v1beta1/balances/"+bech, &rest); err != nil {
		n.bad("rest", "%v", err)
	}
	has := func(l []struct{ Denom, Amount string }) int64 {
		for _, b := range l {
			if b.Denom == n.denom {
				var x int64
				fmt.Sscan(b.Amount, &x)
				return x
			}
		}
		return 0
	}
	var eth hexutil.Big
	err := n.ask(&eth, "eth_getBalance", a, "latest")
	if has(cli.Balances) != want || has(rest.Balances) != want || err != nil || !eth.ToInt().IsInt64() || eth.ToInt().Sign() < 0 {
		n.bad("balance", "%s: %s has %v, by REST %v, by eth_getBalance %s, and not %d (%v)", when, bech, cli, rest, eth.ToInt(), want, err)
	}
	n.r.Eval(3)
}
