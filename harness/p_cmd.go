package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// The command line tool is run as a process against a stand-in block explorer.

// reply is what the explorer says to a request.
type reply struct {
	status int
	body   []byte
	cut    bool // close the connection before the body is complete
	asked  int32
}

type explorer struct {
	addr    string
	caFile  string
	answers sync.Map // path -> *reply
	unknown int64
	watch   func(r *http.Request)
}

var theExplorer *explorer

func startExplorer(work string) (*explorer, error) {
	caKey, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, err
	}
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign}
	caDER, err := x509.CreateCertificate(crand.Reader, ca, ca, &caKey.PublicKey, caKey)
	if err != nil {
		return nil, err
	}
	e := &explorer{caFile: filepath.Join(work, "ca.pem")}
	if err := os.WriteFile(e.caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDER}), 0600); err != nil {
		return nil, err
	}
	var certs sync.Map
	tlsConfig := &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
		if c, ok := certs.Load(h.ServerName); ok {
			return c.(*tls.Certificate), nil
		}
		leaf := &x509.Certificate{SerialNumber: big.NewInt(2), DNSNames: []string{h.ServerName},
			NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
		der, err := x509.CreateCertificate(crand.Reader, leaf, ca, &caKey.PublicKey, caKey)
		if err != nil {
			return nil, err
		}
		c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: caKey}
		certs.Store(h.ServerName, c)
		return c, nil
	}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	e.addr = l.Addr().String()
	srv := &http.Server{Handler: e, TLSConfig: tlsConfig, ErrorLog: log.New(io.Discard, "", 0)}
	go srv.ServeTLS(l, "", "")
	return e, nil
}

func (e *explorer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if e.watch != nil {
		e.watch(r)
	}
	v, ok := e.answers.Load(r.URL.Path)
	if !ok {
		atomic.AddInt64(&e.unknown, 1)
		http.Error(w, "Not Found", 404)
		return
	}
	a := v.(*reply)
	atomic.AddInt32(&a.asked, 1)
	if a.cut {
		w.Header().Set("Content-Length", fmt.Sprint(len(a.body)+10))
	}
	w.WriteHeader(a.status)
	w.Write(a.body)
}

// runTool runs the tool and returns what it prints.
func (k *K) runTool(rate, dust float32, network string, args ...string) string {
	out, _ := k.runToolIn(os.Getenv("VERIF_WORK"), rate, dust, network, args...)
	return out
}

// runToolIn runs the tool in a directory and returns what it prints and what it logs.
func (k *K) runToolIn(dir string, rate, dust float32, network string, args ...string) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_WORK"), "tool"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "VERIF_EXPLORER=" + theExplorer.addr, "SSL_CERT_FILE=" + theExplorer.caFile,
		"SSL_CERT_DIR=/nonexistent", "NETWORK=" + network, "GOMAXPROCS=2"}
	if k.Intn(5) == 0 {
		k.Event("config file")
		f := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("config.%d.%d.json", k.index, k.Int63()))
		if err := os.WriteFile(f, []byte(fmt.Sprintf(`{"fee_rate": %g, "dust_fee_rate": %g}`, rate, dust)), 0600); err != nil {
			panic(err)
		}
		defer os.Remove(f)
		cmd.Env = append(cmd.Env, "CONFIG_FILE="+f)
	} else {
		cmd.Env = append(cmd.Env, fmt.Sprintf("FEE_RATE=%g", rate), fmt.Sprintf("DUST_FEE_RATE=%g", dust))
	}
	var out, errs bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errs
	err := cmd.Run()
	k.Tracef("rate %g dust %g network %s: tool %s", rate, dust, network, strings.Join(args, " "))
	k.Tracef("printed: %s", out.String())
	if ctx.Err() != nil {
		k.Fail("hang", "the tool did not finish in two minutes")
	}
	all := out.String() + errs.String()
	if strings.Contains(all, "panic:") || strings.Contains(all, "fatal error:") {
		k.Fail("panic", "the tool crashed: %s", all)
	}
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		panic(fmt.Sprintf("run tool: %s", err))
	}
	return out.String(), errs.String()
}

// printed is the transactions in the output of the tool.
type printed struct {
	txs        []*wire.MsgTx
	extended   []string
	cumulative []string
}

func (k *K) parseOutput(out string) *printed {
	p := &printed{}
	for _, line := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(line, "Tx Hex : "):
			h := strings.TrimSpace(strings.TrimPrefix(line, "Tx Hex : "))
			b, err := hex.DecodeString(h)
			tx := &wire.MsgTx{}
			r := bytes.NewReader(b)
			if err == nil {
				err = tx.Deserialize(r)
			}
			k.Check("hex", err == nil && r.Len() == 0 && bytes.Equal(encodeTx(tx), b), "%s is not the hex of a transaction: %v", h, err)
			p.txs = append(p.txs, tx)
		case strings.HasPrefix(line, "Extended Tx Hex : "):
			p.extended = append(p.extended, strings.TrimSpace(strings.TrimPrefix(line, "Extended Tx Hex : ")))
		case strings.HasPrefix(line, "Cumulative Extended Txs Hex : "):
			p.cumulative = append(p.cumulative, strings.TrimSpace(strings.TrimPrefix(line, "Cumulative Extended Txs Hex : ")))
		}
	}
	return p
}

func (p *printed) none() bool { return len(p.txs)+len(p.extended)+len(p.cumulative) == 0 }

// extendedForm encodes a transaction with the outputs it spends.
func extendedForm(tx *wire.MsgTx, spent []*wire.TxOut) string {
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, tx.Version)
	b.Write([]byte{0, 0, 0, 0, 0, 0xef})
	putVarint(b, uint64(len(tx.TxIn)))
	for i, in := range tx.TxIn {
		b.Write(in.PreviousOutPoint.Hash[:])
		binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
		putVarint(b, uint64(len(in.UnlockingScript)))
		b.Write(in.UnlockingScript)
		binary.Write(b, binary.LittleEndian, in.Sequence)
		encodeOut(b, spent[i])
	}
	putVarint(b, uint64(len(tx.TxOut)))
	for _, o := range tx.TxOut {
		encodeOut(b, o)
	}
	binary.Write(b, binary.LittleEndian, tx.LockTime)
	return hex.EncodeToString(b.Bytes())
}

var toolRates = []float32{0.05, 0.05, 0.25, 0.5, 1, 2.5, 0.001, 10}

type toolSetup struct {
	k          *K
	rate, dust float32
	network    string
	bnet       bitcoin.Network
	key        *keyInfo
	keyText    string
	own        bitcoin.Script
	coins      []bitcoin.UTXO // what is to be spent
	asked      []*reply
	outs       map[bitcoin.Hash32]int // how many outputs the transactions have
	faulty     string
}

func (k *K) toolSetup() *toolSetup {
	t := &toolSetup{k: k, rate: toolRates[k.Intn(len(toolRates))], dust: k.dustRate(), network: "mainnet", bnet: bitcoin.MainNet}
	if k.Intn(3) == 0 {
		t.network, t.bnet = "testnet", bitcoin.TestNet
	}
	t.key = k.key()
	t.keyText = t.keyString(t.key.key.Number())
	t.own = p2pkhScript(t.key.pkh)
	return t
}

func (t *toolSetup) net() string {
	if t.network == "mainnet" {
		return "main"
	}
	return "test"
}

// keyString is the wallet import format of a key.
func (t *toolSetup) keyString(number []byte) string {
	b := []byte{0x80}
	if t.network != "mainnet" {
		b[0] = 0xef
	}
	b = append(b, make([]byte, 32-len(number))...)
	b = append(b, number...)
	if t.k.Intn(3) > 0 {
		b = append(b, 1)
	}
	b = append(b, dsha(b)[:4]...)
	n := new(big.Int).SetBytes(b)
	var r []byte
	for m := new(big.Int); n.Sign() > 0; {
		n.DivMod(n, big.NewInt(58), m)
		r = append([]byte{base58[m.Int64()]}, r...)
	}
	return string(r)
}

const base58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func (t *toolSetup) total() (n uint64) {
	for _, c := range t.coins {
		n += c.Value
	}
	return
}

// fund makes n coins in one or more transactions that the explorer knows.
func (t *toolSetup) fund(n int, value func() uint64) {
	k := t.k
	for len(t.coins) < n {
		tx := wire.NewMsgTx(1)
		h := k.hash()
		tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 0), k.bytes(100)))
		var mine []int
		for i := 1 + k.Intn(4); i > 0 || n > 20 && len(mine) < n; i-- {
			l := t.own
			if k.Intn(4) == 0 && n < 20 {
				l = k.lockOutput().script
			} else if k.Intn(8) == 0 && n < 20 {
				l = p2pkScript(t.key.pub)
				mine = append(mine, len(tx.TxOut))
			} else {
				mine = append(mine, len(tx.TxOut))
			}
			tx.AddTxOut(wire.NewTxOut(value(), l))
		}
		txid := *tx.TxHash()
		if t.outs == nil {
			t.outs = map[bitcoin.Hash32]int{}
		}
		t.outs[txid] = len(tx.TxOut)
		a := &reply{status: 200, body: []byte(hex.EncodeToString(encodeTx(tx)))}
		theExplorer.answers.Store(fmt.Sprintf("/v1/bsv/%s/tx/%s/hex", t.net(), txid), a)
		used := false
		for _, i := range mine {
			if len(t.coins) < n && (!used || k.Intn(4) > 0 || n > 20) {
				used = true
				t.coins = append(t.coins, bitcoin.UTXO{Hash: txid, Index: uint32(i), Value: tx.TxOut[i].Value, LockingScript: tx.TxOut[i].LockingScript})
			}
		}
		if used {
			t.asked = append(t.asked, a)
		}
	}
	k.Shuffle(len(t.coins), func(i, j int) { t.coins[i], t.coins[j] = t.coins[j], t.coins[i] })
}

func (t *toolSetup) outpoints() (r []string) {
	for _, c := range t.coins {
		r = append(r, fmt.Sprintf("%s:%d", c.Hash, c.Index))
	}
	return
}

// noSuchOutput names an output that one of the transactions does not have.
func (t *toolSetup) noSuchOutput() string {
	h := t.coins[t.k.Intn(len(t.coins))].Hash
	return fmt.Sprintf("%s:%d", h, t.outs[h]+[]int{0, 0, 1, 1000 + t.k.Intn(1000)}[t.k.Intn(4)])
}

// forget removes the answers of the case.
func (t *toolSetup) forget() {
	for _, c := range t.coins {
		theExplorer.answers.Delete(fmt.Sprintf("/v1/bsv/%s/tx/%s/hex", t.net(), c.Hash))
	}
}

// spoil makes one of the explorer's answers useless.
func (t *toolSetup) spoil(list bool) {
	k := t.k
	a := t.asked[k.Intn(len(t.asked))]
	body := append([]byte(nil), a.body...)
	switch k.Intn(10) {
	case 9:
		t.faulty, a.status = "several choices", 300
	case 0:
		t.faulty, a.status = "not found", 404
	case 1:
		t.faulty, a.status = "server error", 500
	case 2:
		t.faulty, a.status, a.body = "error status with text", 429, []byte("Too many requests")
	case 3:
		t.faulty, a.body = "truncated", body[:k.Intn(len(body))]
		if list && len(a.body) == 0 {
			t.faulty, a.body = "truncated", body[:1]
		}
	case 4:
		t.faulty, a.body = "text", []byte("<html>down for maintenance</html>")
	case 5:
		t.faulty, a.body = "empty", nil
	case 6:
		t.faulty, a.cut = "connection lost", true
	case 7:
		if list {
			t.faulty, a.body = "object instead of list", []byte(`{"error":"x"}`)
			return
		}
		// someone else's transaction
		tx := wire.NewMsgTx(1)
		h := k.hash()
		tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 0), k.bytes(100)))
		for i := 0; i < 6; i++ {
			tx.AddTxOut(wire.NewTxOut(1000000, t.own))
		}
		t.faulty, a.body = "another transaction", []byte(hex.EncodeToString(encodeTx(tx)))
	case 8:
		if list {
			t.faulty, a.body = "wrong types", bytes.Replace(body, []byte(`"value":`), []byte(`"value":"x`), 1)
			return
		}
		body[k.Intn(len(body))] = 'z'
		t.faulty, a.body = "not hex", body
	}
}

// checkTx judges one printed transaction: what it spends, that it is signed, and its fee when there
// is change. It returns the fee and the estimated size.
func (t *toolSetup) checkTx(tx *wire.MsgTx, coins []bitcoin.UTXO) (fee uint64, est int) {
	k := t.k
	k.Check("inputs", len(tx.TxIn) == len(coins), "the transaction has %d inputs, %d outputs were named", len(tx.TxIn), len(coins))
	var in, out uint64
	var outs []*wire.TxOut
	est = 8 + varintLen(uint64(len(tx.TxIn))) + varintLen(uint64(len(tx.TxOut)))
	for i, c := range coins {
		p := tx.TxIn[i].PreviousOutPoint
		k.Check("spends", p.Hash == c.Hash && p.Index == c.Index, "input %d spends %s:%d, should spend %s:%d", i, p.Hash, p.Index, c.Hash, c.Index)
		in += c.Value
		n, _ := inSize(c.LockingScript)
		est += n
		outs = append(outs, &wire.TxOut{Value: c.Value, LockingScript: c.LockingScript})
		err := signedAll(tx, i, c.LockingScript, c.Value)
		k.Check("signed", err == nil, "input %d is not validly signed: %v", i, err)
	}
	if k.Intn(4) == 0 {
		err := interpreterAccepts(tx, outs)
		k.Check("interpreter", err == nil, "the script interpreter does not accept the transaction: %v", err)
	}
	k.Check("some output", len(tx.TxOut) > 0, "the transaction has no outputs")
	for _, o := range tx.TxOut {
		out += o.Value
		est += outSize(o.LockingScript)
	}
	k.Check("no overspend", out <= in, "outputs of %d spend more than the inputs of %d", out, in)
	fee = in - out
	k.Check("fee pays", fee >= ceilFee(len(encodeTx(tx)), t.rate), "the fee %d is less than the rate %g requires for %d bytes", fee, t.rate, len(encodeTx(tx)))
	return
}

// worth is the least that is worth having in an output: what it costs to have and to spend.
func worth(script []byte, rate float32) uint64 {
	n := ceilFee(outSize(script), rate)
	if in, ok := inSize(script); ok {
		n += ceilFee(in, rate)
	}
	return n
}

func sendCase(k *K) {
	t := k.toolSetup()
	n := 1 + k.Intn(4)
	if k.Intn(50) == 0 {
		n = k.boundaryCount()
	}
	t.fund(n, func() uint64 {
		if k.Intn(12) == 0 {
			return uint64(1000 + k.Int63n(1<<45))
		}
		return uint64(1000 + k.Intn(100000))
	})
	defer t.forget()
	to := k.lockSpendable()
	for to.kind == "p2pk" {
		to = k.lockSpendable()
	}
	if k.Intn(8) == 0 {
		to = lock{script: t.own, kind: "p2pkh"}
	}
	self := bytes.Equal(to.script, t.own)
	ra, err := bitcoin.RawAddressFromLockingScript(to.script)
	if err != nil {
		k.Skip("no address")
		return
	}
	address := bitcoin.NewAddressFromRawAddress(ra, t.bnet).String()
	if _, err := bitcoin.DecodeAddress(address); err != nil {
		k.Skip("no address")
		return
	}
	// sizes of the transaction without and with change
	est := 8 + varintLen(uint64(n)) + 1
	for _, c := range t.coins {
		s, _ := inSize(c.LockingScript)
		est += s
	}
	most := est // largest and smallest that signatures can make it
	least := est - 4*n
	if !self {
		most += outSize(to.script)
		least += outSize(to.script)
	}
	change := outSize(t.own)
	total := t.total()
	var amount uint64
	switch x := ceilFee(most, t.rate); k.Intn(8) {
	case 0:
		amount = total // too much
	case 1:
		amount = total + uint64(k.Intn(1000))
	case 2, 3:
		// around what is affordable without change
		amount = sub0(total+3, x+uint64(k.Intn(7)))
	case 4, 5:
		// around what leaves just enough for change
		amount = sub0(total+3, ceilFee(most+change, t.rate)+worth(t.own, t.rate)+uint64(k.Intn(7)))
	case 6:
		amount = sub0(ceilFee(outSize(to.script), t.rate)+3, uint64(k.Intn(6)))
	default:
		amount = uint64(k.Int63n(int64(total)))
	}
	args := append([]string{"create_send", t.keyText, address, fmt.Sprint(amount)}, t.outpoints()...)
	wrong := ""
	if k.Intn(3) == 0 {
		switch k.Intn(9) {
		case 0:
			wrong = "key"
			args[1] = damage(k, args[1])
		case 1:
			wrong = "address"
			args[2] = damage(k, args[2])
		case 2:
			wrong = "amount"
			args[3] = []string{"-1", "-100000", "abc", "1.5", "", "18446744073709551616", "1e3", "0x10", "-9223372036854775808", "99999999999999999999"}[k.Intn(10)]
		case 3:
			wrong = "outpoint"
			args[4+k.Intn(n)] = []string{"x:0", fmt.Sprintf("%s", t.coins[0].Hash), fmt.Sprintf("%s:x", t.coins[0].Hash), ":1", fmt.Sprintf("%s:-1", t.coins[0].Hash), ""}[k.Intn(6)]
		case 4:
			wrong = "index"
			args[4+k.Intn(n)] = t.noSuchOutput()
		case 5:
			wrong = "unknown tx"
			args[4+k.Intn(n)] = fmt.Sprintf("%s:0", k.hash())
		case 6:
			wrong = "duplicate"
			args = append(args, args[4+k.Intn(n)])
		case 7:
			wrong = "someone else's output"
			t2 := &toolSetup{k: k, network: t.network, key: poolKey((t.key.n + 1) % poolSize), own: nil}
			t2.own = p2pkhScript(t2.key.pkh)
			t2.fund(1, func() uint64 { return 1000000 })
			defer t2.forget()
			args = append(args, t2.outpoints()...)
		default:
			t.spoil(false)
			wrong = "explorer " + t.faulty
		}
	}
	out := k.runTool(t.rate, t.dust, t.network, args...)
	p := k.parseOutput(out)
	if wrong != "" {
		k.Event("wrong " + wrong)
		k.Check("nothing printed", p.none(), "the %s is wrong but a transaction is printed", wrong)
		k.Distinct("wrong %s", wrong)
		return
	}
	// outputs worth less than the fee for having them are refused
	small := ceilFee(outSize(to.script), t.rate)
	keep := worth(t.own, t.rate)
	must, mustNot := false, false
	if self {
		must = total > ceilFee(most+change, t.rate)+keep+2
		mustNot = total <= ceilFee(least+change, t.rate)
	} else {
		must = amount >= small && total >= amount+ceilFee(most, t.rate)
		mustNot = amount < small || total < amount+ceilFee(least, t.rate)
	}
	if mustNot {
		k.Check("refused", p.none(), "a transaction is printed but %d is not enough for %d and the fee, or that is too small", total, amount)
		k.Distinct("refused dust %v", amount < small)
		return
	}
	if p.none() {
		if must {
			k.Fail("sent", "nothing is printed but %d is enough for %d and a fee of %d", total, amount, ceilFee(most, t.rate))
		}
		k.Skip("depends on the size of signatures")
		return
	}
	k.Decide("sent")
	k.Check("one transaction", len(p.txs) == 1 && len(p.extended) == 1 && len(p.cumulative) == 0, "%d transactions and %d extended ones are printed", len(p.txs), len(p.extended))
	tx := p.txs[0]
	for _, a := range t.asked {
		k.Check("explorer asked", atomic.LoadInt32(&a.asked) > 0, "the explorer was not asked for a named transaction")
	}
	fee, size := t.checkTx(tx, t.coins)
	outs := tx.TxOut
	if !self {
		k.Check("payment", len(outs) > 0 && bytes.Equal(outs[0].LockingScript, to.script) && outs[0].Value == amount, "the amount is not paid to the address")
		outs = outs[1:]
	}
	changed := len(outs) == 1
	k.Check("change", len(outs) == 0 || changed && bytes.Equal(outs[0].LockingScript, t.own), "an output goes elsewhere")
	if changed {
		k.Check("fee with change", fee <= ceilFee(size, t.rate), "the fee %d is more than the rate %g requires for an estimated size of %d", fee, t.rate, size)
	} else {
		k.Check("fee without change", fee <= ceilFee(size+change+2, t.rate)+keep+2, "the fee %d takes what could be change", fee)
	}
	k.Check("extended form", p.extended[0] == extendedForm(tx, spentOuts(t.coins)), "the extended form is not of the same transaction and spent outputs")
	k.Distinct("sent n%d %s change%v net %s rate%g dust%g", n, to.kind, changed, t.net(), t.rate, t.dust)
	k.Sample(map[string]interface{}{"arguments": args, "fee": fee, "size": len(encodeTx(tx)), "change": changed})
}

func spentOuts(coins []bitcoin.UTXO) (r []*wire.TxOut) {
	for _, c := range coins {
		r = append(r, &wire.TxOut{Value: c.Value, LockingScript: c.LockingScript})
	}
	return
}

func sub0(a, b uint64) uint64 {
	if b > a {
		return 0
	}
	return a - b
}

// damage changes one character of a base58 text.
func damage(k *K, s string) string {
	b := []byte(s)
	i := k.Intn(len(b))
	for {
		c := base58[k.Intn(len(base58))]
		if c != b[i] {
			b[i] = c
			return string(b)
		}
	}
}

func chainCase(k *K) {
	t := k.toolSetup()
	n := 1 + k.Intn(3)
	count := 1 + k.Intn(6)
	if k.Intn(20) == 0 {
		count = 20 + k.Intn(20)
	}
	first := 8 + 1 + 1 + outSize(t.own)
	t.fund(n, func() uint64 {
		// often not enough for the whole chain
		f := ceilFee(first+n*149, t.rate) + uint64(count-1)*ceilFee(192, t.rate)
		return 1 + f/uint64(n) + uint64(k.Int63n(int64(f)/2+20)) - uint64(k.Int63n(int64(f)/uint64ToInt(n)/2+1))
	})
	defer t.forget()
	args := append([]string{"create_sends", fmt.Sprint(count), t.keyText}, t.outpoints()...)
	wrong := ""
	if k.Intn(3) == 0 {
		switch k.Intn(6) {
		case 0:
			wrong = "key"
			args[2] = damage(k, args[2])
		case 1:
			wrong = "count"
			args[1] = []string{"0", "-1", "x", "", "1.5", "-100"}[k.Intn(6)]
		case 2:
			wrong = "outpoint"
			args[3+k.Intn(n)] = []string{"x:0", fmt.Sprintf("%s:x", t.coins[0].Hash), fmt.Sprintf("%s:%d", t.coins[0].Hash, 900), fmt.Sprintf("%s:0", k.hash()), t.noSuchOutput()}[k.Intn(5)]
		case 3:
			wrong = "duplicate"
			args = append(args, args[3+k.Intn(n)])
		case 4:
			wrong = "someone else's output"
			t2 := &toolSetup{k: k, network: t.network, key: poolKey((t.key.n + 1) % poolSize), own: nil}
			t2.own = p2pkhScript(t2.key.pkh)
			t2.fund(1, func() uint64 { return 1000000 })
			defer t2.forget()
			args = append(args, t2.outpoints()...)
		default:
			t.spoil(false)
			wrong = "explorer " + t.faulty
		}
	}
	out := k.runTool(t.rate, t.dust, t.network, args...)
	p := k.parseOutput(out)
	if wrong != "" {
		k.Event("wrong " + wrong)
		k.Check("nothing printed", p.none(), "the %s is wrong but a transaction is printed", wrong)
		k.Distinct("chain wrong %s", wrong)
		return
	}
	most := first
	for _, c := range t.coins {
		s, _ := inSize(c.LockingScript)
		most += s
	}
	next := 8 + 1 + 1 + 149 + outSize(t.own)
	total := t.total()
	need := ceilFee(most, t.rate) + uint64(count-1)*ceilFee(next, t.rate) + worth(t.own, t.rate) + 2
	floor := ceilFee(most-4*n, t.rate) + uint64(count-1)*ceilFee(next-4, t.rate) + 1
	if total < floor {
		k.Check("refused", p.none(), "transactions are printed but %d is not enough for a chain of %d", total, count)
		k.Distinct("chain refused")
		return
	}
	if p.none() {
		if total >= need {
			k.Fail("sent", "nothing is printed but %d is enough for a chain of %d, which needs %d", total, count, need)
		}
		k.Skip("depends on the size of signatures")
		return
	}
	k.Decide("chained")
	k.Check("count", len(p.txs) == count && len(p.extended) == count && len(p.cumulative) == 1, "%d transactions, %d extended and %d cumulative are printed, should be %d", len(p.txs), len(p.extended), len(p.cumulative), count)
	coins := t.coins
	all := ""
	for i, tx := range p.txs {
		fee, size := t.checkTx(tx, coins)
		k.Check("chain output", len(tx.TxOut) == 1 && bytes.Equal(tx.TxOut[0].LockingScript, t.own), "transaction %d does not pay just the key", i)
		k.Check("chain fee", fee <= ceilFee(size, t.rate), "the fee %d of transaction %d is more than the rate requires", fee, i)
		e := extendedForm(tx, spentOuts(coins))
		k.Check("extended form", p.extended[i] == e, "extended form %d is not of the same transaction and spent outputs", i)
		all += e
		var txid bitcoin.Hash32
		copy(txid[:], dsha(encodeTx(tx)))
		coins = []bitcoin.UTXO{{Hash: txid, Index: 0, Value: tx.TxOut[0].Value, LockingScript: tx.TxOut[0].LockingScript}}
	}
	k.Check("cumulative form", p.cumulative[0] == all, "the cumulative form is not the extended forms of all transactions")
	k.Distinct("chain n%d count%d net %s rate%g dust%g", n, count, t.net(), t.rate, t.dust)
	k.Sample(map[string]interface{}{"arguments": args})
}

// printable is whether the script has a text form; making one fails for some scripts.
func (k *K) printable(s bitcoin.Script) bool {
	done := false
	k.Try(func() { done = len(s.String()) > 0 })
	return done
}

func uint64ToInt(n int) int64 { return int64(n) }

// listCoins makes coins of the key that the explorer lists.
func (t *toolSetup) listCoins(n int, value func() uint64) (list []string, path string, a *reply) {
	k := t.k
	for i := 0; i < n; i++ {
		u := bitcoin.UTXO{Hash: k.hash(), Index: k.outIndex(), Value: value(), LockingScript: t.own}
		t.coins = append(t.coins, u)
		height := k.Intn(800000)
		if k.Intn(3) == 0 {
			height = 0 // not in a block yet
		}
		list = append(list, fmt.Sprintf(`{"height":%d,"tx_pos":%d,"tx_hash":"%s","value":%d}`, height, u.Index, u.Hash, u.Value))
	}
	sum := sha256.Sum256(t.own)
	var sh bitcoin.Hash32
	copy(sh[:], sum[:])
	path = fmt.Sprintf("/v1/bsv/%s/script/%s/unspent", t.net(), sh)
	a = &reply{status: 200, body: []byte("[" + strings.Join(list, ",") + "]")}
	t.asked = []*reply{a}
	theExplorer.answers.Store(path, a)
	return
}

func consolidateCase(k *K) {
	t := k.toolSetup()
	n := k.Intn(6)
	if k.Intn(30) == 0 {
		n = k.boundaryCount()
	}
	// the explorer's index answers by the hash of the script, for each case a new key is needed
	kb := k.bytes(32)
	kb[0] = 1
	key, err := bitcoin.KeyFromNumber(kb, t.bnet)
	if err != nil {
		panic(err)
	}
	t.keyText = t.keyString(kb)
	t.own = p2pkhScript(hash160(key.PublicKey().Bytes()))
	list, path, a := t.listCoins(n, func() uint64 {
		switch k.Intn(9) {
		case 0, 1, 2:
			return uint64(k.Intn(10000000))
		case 3:
			return uint64(k.Int63n(1 << 45))
		}
		return uint64(1 + k.Intn(2000))
	})
	defer theExplorer.answers.Delete(path)

	to := k.lockOutput()
	for len(to.script) > 5000 || to.kind == "unknown" {
		to = k.lockOutput()
	}
	if k.Intn(10) == 0 {
		to = lock{script: t.own, kind: "own"}
	}
	args := []string{"consolidate", t.keyText}
	form := "script text"
	recipient := ""
	if k.Intn(2) == 0 {
		if ra, err := bitcoin.RawAddressFromLockingScript(to.script); err == nil {
			recipient = bitcoin.NewAddressFromRawAddress(ra, t.bnet).String()
			form = "address"
		}
	} else if k.Intn(2) == 0 {
		recipient = bitcoin.BIP0276Encode(t.bnet, bitcoin.BIP0276_ScriptPrefix, to.script)
		form = "BIP0276"
	}
	if !k.printable(to.script) {
		k.Skip("script can't be written as text")
		return
	}
	if recipient == "" {
		k.Try(func() { recipient = to.script.String() })
		if s, err := bitcoin.StringToScript(recipient); err != nil || !bytes.Equal(s, to.script) {
			k.Skip("script can't be written as text")
			return
		}
		if k.Intn(2) == 0 {
			args = append(args, strings.Fields(recipient)...)
		} else {
			args = append(args, recipient)
		}
	} else {
		if s, err := bitcoin.DecodeToLockingScript(recipient, t.bnet); err != nil || !bytes.Equal(s, to.script) {
			k.Skip("script can't be written as text")
			return
		}
		args = append(args, recipient)
	}
	wrong := ""
	if k.Intn(3) == 0 {
		switch k.Intn(4) {
		case 0:
			wrong = "key"
			args[1] = damage(k, args[1])
		case 1:
			wrong = "recipient"
			args = append(args[:2], []string{"OP_NOTHING", "x", "1BitcoinEaterAddressDontSend", "76a9zz"}[k.Intn(4)])
		case 2:
			if n > 0 {
				wrong = "duplicate"
				a.body = []byte("[" + strings.Join(append(list, list[k.Intn(n)]), ",") + "]")
			}
		default:
			t.spoil(true)
			wrong = "explorer " + t.faulty
			if n == 0 {
				wrong = ""
			}
		}
	}
	out := k.runTool(t.rate, t.dust, t.network, args...)
	p := k.parseOutput(out)
	if wrong != "" {
		k.Event("wrong " + wrong)
		k.Check("nothing printed", p.none(), "the %s is wrong but a transaction is printed", wrong)
		k.Distinct("consolidate wrong %s", wrong)
		return
	}
	most := 8 + varintLen(uint64(n)) + 1 + outSize(to.script) + 149*n
	least := most - 4*n
	total := t.total()
	if n == 0 || total < ceilFee(least, t.rate) {
		k.Check("refused", p.none(), "a transaction is printed but %d is not enough", total)
		k.Distinct("consolidate refused n%v", n == 0)
		return
	}
	if p.none() {
		if total >= ceilFee(most, t.rate)+worth(to.script, t.rate)+2 {
			k.Fail("sent", "nothing is printed but %d in %d outputs is enough for a fee of %d", total, n, ceilFee(most, t.rate))
		}
		k.Skip("depends on the size of signatures")
		return
	}
	k.Decide("consolidated")
	k.Check("one transaction", len(p.txs) == 1, "%d transactions are printed", len(p.txs))
	tx := p.txs[0]
	fee, size := t.checkTx(tx, t.coins)
	k.Check("recipient", len(tx.TxOut) == 1 && bytes.Equal(tx.TxOut[0].LockingScript, to.script), "the outputs are not just the recipient")
	k.Check("consolidation fee", fee <= ceilFee(size, t.rate), "the fee %d is more than the rate requires", fee)
	k.Check("explorer asked", atomic.LoadInt32(&a.asked) > 0, "the explorer was not asked")
	k.Distinct("consolidate n%d %s %s net %s rate%g dust%g", n, to.kind, form, t.net(), t.rate, t.dust)
	k.Sample(map[string]interface{}{"arguments": args, "listed": n, "fee": fee})
}

func init() {
	register("C27", "The tool is run as a process, its connections led to a stand-in explorer with its own certificate, with one to a few (and around 252) outputs of its key, amounts around what is affordable with and without change and around the smallest that is accepted, chains of 1 to 40 with about enough value, listings for consolidation, fee and dust rates from the environment or a file, both networks, and with damaged arguments and useless answers. What it prints is decoded and checked for inputs, signatures, outputs, fee and the extended form; when something is wrong or unaffordable no transaction may be printed. Distinct counts commands by number of inputs, script kinds, rates, network and outcome, and kinds of failure.", func(c *C) {
		c.Require("sent", 200)
		c.Require("chained", 200)
		c.Require("consolidated", 200)
		c.Require("refused", 100)
		c.Require("nothing printed", 300)
		e, err := startExplorer(os.Getenv("VERIF_WORK"))
		if err != nil {
			panic(err)
		}
		theExplorer = e
		c.Cases("send", c.Pick(1500, 15000), sendCase)
		c.Cases("chain", c.Pick(1000, 8000), chainCase)
		c.Cases("consolidate", c.Pick(1000, 10000), consolidateCase)
	})
}
