package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strings"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// The readable listing that the tool prints next to each transaction.

// hashAddress is the text of the address of a public key hash.
func hashAddress(pkh []byte, network string) string {
	b := append([]byte{0x00}, pkh...)
	if network != "mainnet" {
		b[0] = 0x6f
	}
	b = append(b, dsha(b)[:4]...)
	var r []byte
	n := new(big.Int).SetBytes(b)
	for m := new(big.Int); n.Sign() > 0; {
		n.DivMod(n, big.NewInt(58), m)
		r = append([]byte{base58[m.Int64()]}, r...)
	}
	for i := 0; i < len(b) && b[i] == 0; i++ {
		r = append([]byte{base58[0]}, r...)
	}
	return string(r)
}

// amount reads an amount of satoshis, or of bitcoins when it has a fraction, exactly.
func amount(s string) (uint64, bool) {
	whole, frac := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		whole, frac = s[:i], s[i+1:]
		if len(frac) > 8 {
			return 0, false
		}
		frac += strings.Repeat("0", 8-len(frac))
	}
	n, ok := new(big.Int).SetString(whole+frac, 10)
	if !ok || !n.IsUint64() {
		return 0, false
	}
	return n.Uint64(), true
}

// hexLine recognizes what is not part of a listing.
var hexLine = regexp.MustCompile(`^(Tx|Extended Tx|Cumulative Extended Txs) Hex : ([0-9a-f]*)$`)

// listings splits what is printed into transactions with the text that precedes them.
func (k *K) listings(out string) (txs []*wire.MsgTx, texts []string) {
	var text []string
	for _, line := range strings.Split(out, "\n") {
		m := hexLine.FindStringSubmatch(line)
		if m == nil {
			text = append(text, line)
			continue
		}
		if m[1] == "Tx" {
			b, err := hex.DecodeString(m[2])
			tx := &wire.MsgTx{}
			if err == nil {
				err = tx.Deserialize(bytes.NewReader(b))
			}
			if err != nil {
				k.Skip("not a transaction")
				return nil, nil
			}
			txs = append(txs, tx)
			texts = append(texts, strings.Join(text, "\n"))
		}
		text = nil
	}
	return
}

var (
	valueText    = regexp.MustCompile(`(?m)^\s*Value\s*:\s*(\S+)`)
	sizeText     = regexp.MustCompile(`\((\d+) bytes\)`)
	feeText      = regexp.MustCompile(`/ (\d+) fee\)`)
	lockTimeText = regexp.MustCompile(`(?mi)^\s*Lock\s*Time\s*:\s*(\d+)`)
)

// judgeListing compares a listing with its transaction, spent says what the outputs are that it can spend.
func (t *toolSetup) judgeListing(tx *wire.MsgTx, text string, spent map[wire.OutPoint]wire.TxOut) {
	k := t.k
	var txid bitcoin.Hash32
	copy(txid[:], dsha(encodeTx(tx)))
	k.Check("identifier listed", strings.Contains(text, txid.String()), "the listing does not name transaction %s: %s", txid, text)
	other := "testnet"
	if t.network == "testnet" {
		other = "mainnet"
	}
	at, from := 0, 0
	var in, out uint64
	for i, txin := range tx.TxIn {
		p := txin.PreviousOutPoint
		pos := -1
		for _, form := range []string{fmt.Sprintf(" %d - %s", p.Index, p.Hash), fmt.Sprintf("%s:%d\n", p.Hash, p.Index)} {
			if q := strings.Index(text[at:], form); q >= 0 {
				pos = at + q
			}
		}
		k.Check("outpoint listed", pos >= 0, "input %d spends %s:%d but the listing does not say so at that place: %s", i, p.Hash, p.Index, text)
		at = pos + 1
		if i == 0 {
			from = pos
		}
	}
	outs := strings.LastIndex(text, "Outputs")
	if outs < 0 {
		k.Fail("outputs listed", "the listing has no outputs: %s", text)
	}
	ins := valueText.FindAllStringSubmatch(text[from:outs], -1)
	for i, txin := range tx.TxIn {
		o, ok := spent[txin.PreviousOutPoint]
		if !ok || len(ins) != len(tx.TxIn) {
			k.Skip("values of inputs not listed")
			break
		}
		v, ok := amount(ins[i][1])
		k.Check("exact value of input listed", ok && v == o.Value, "input %d spends %d, the listing says %s", i, o.Value, ins[i][1])
		in += o.Value
		if l := o.LockingScript; len(l) == 25 {
			k.Check("address of input listed", strings.Contains(text[from:outs], hashAddress(l[3:23], t.network)), "input %d spends from an address of the configured network that is not listed: %s", i, text)
		}
	}
	values := valueText.FindAllStringSubmatch(text[outs:], -1)
	k.Check("outputs listed", len(values) == len(tx.TxOut), "%d outputs are listed, there are %d", len(values), len(tx.TxOut))
	for i, o := range tx.TxOut {
		v, ok := amount(values[i][1])
		k.Check("exact value listed", ok && v == o.Value, "output %d is worth %d, the listing says %s", i, o.Value, values[i][1])
		out += o.Value
		if o.Value >= 1<<24 {
			k.Decide("large value listed")
		}
		l := o.LockingScript
		if len(l) == 25 && l[0] == 0x76 && l[1] == 0xa9 && l[2] == 20 && l[23] == 0x88 && l[24] == 0xac {
			right, wrong := hashAddress(l[3:23], t.network), hashAddress(l[3:23], other)
			k.Check("address listed", strings.Contains(text[outs:], right), "output %d pays %s on the configured network, which is not listed: %s", i, right, text)
			k.Check("no address of another network", !strings.Contains(text, wrong), "the listing shows %s, which is not an address of the configured network", wrong)
			if t.network == "testnet" {
				k.Decide("testnet address listed")
			}
		}
	}
	if m := sizeText.FindStringSubmatch(text); m != nil {
		k.Check("size listed", m[1] == fmt.Sprint(len(encodeTx(tx))), "the transaction has %d bytes, the listing says %s", len(encodeTx(tx)), m[1])
	}
	if m := feeText.FindStringSubmatch(text); m != nil && in > 0 {
		k.Check("fee listed", m[1] == fmt.Sprint(in-out), "the transaction pays %d, the listing says %s", in-out, m[1])
	}
	lt := lockTimeText.FindAllStringSubmatch(text, -1)
	k.Check("lock time listed", len(lt) == 1 && lt[0][1] == fmt.Sprint(tx.LockTime), "lock time is %d, listed %v", tx.LockTime, lt)
}

func listingCase(k *K) {
	t := k.toolSetup()
	n := 1 + k.Intn(4)
	value := func() uint64 { return uint64(200000 + k.Int63n([]int64{100000, 1 << 25, 1 << 33, 1 << 46}[k.Intn(4)])) }
	var args []string
	kind := k.Intn(3)
	if kind == 2 {
		kb := k.bytes(32)
		kb[0] = 1
		key, err := bitcoin.KeyFromNumber(kb, t.bnet)
		if err != nil {
			panic(err)
		}
		t.keyText = t.keyString(kb)
		t.own = p2pkhScript(hash160(key.PublicKey().Bytes()))
		_, path, _ := t.listCoins(n, value)
		defer theExplorer.answers.Delete(path)
		to := k.lockOutput()
		for len(to.script) > 5000 || to.kind == "unknown" || !k.printable(to.script) {
			to = k.lockOutput()
		}
		args = []string{"consolidate", t.keyText, bitcoin.BIP0276Encode(t.bnet, bitcoin.BIP0276_ScriptPrefix, to.script)}
	} else {
		t.fund(n, value)
		defer t.forget()
		if kind == 0 {
			ra, err := bitcoin.RawAddressFromLockingScript(k.lockP2PKH().script)
			if err != nil {
				panic(err)
			}
			to := bitcoin.NewAddressFromRawAddress(ra, t.bnet).String()
			args = append([]string{"create_send", t.keyText, to, fmt.Sprint(1 + k.Int63n(int64(t.total())))}, t.outpoints()...)
		} else {
			args = append([]string{"create_sends", fmt.Sprint(1 + k.Intn(4)), t.keyText}, t.outpoints()...)
		}
	}
	out := k.runTool(t.rate, t.dust, t.network, args...)
	txs, texts := k.listings(out)
	if len(txs) == 0 {
		k.Skip("nothing printed")
		return
	}
	spent := map[wire.OutPoint]wire.TxOut{}
	for _, u := range t.coins {
		spent[wire.OutPoint{Hash: u.Hash, Index: u.Index}] = wire.TxOut{Value: u.Value, LockingScript: u.LockingScript}
	}
	for i := range txs {
		t.judgeListing(txs[i], texts[i], spent)
		var txid bitcoin.Hash32
		copy(txid[:], dsha(encodeTx(txs[i])))
		for j, o := range txs[i].TxOut {
			spent[wire.OutPoint{Hash: txid, Index: uint32(j)}] = *o
		}
	}
	k.Distinct("%s n%d txs%d outs%d net %s rate%g dust%g", args[0], n, len(txs), len(txs[0].TxOut), t.net(), t.rate, t.dust)
	k.Sample(map[string]interface{}{"arguments": args, "listings": len(texts), "first": texts[0]})
}

func init() {
	register("C32", "The tool is run as a process against a stand-in explorer, for sends, chains of 1-4 and consolidations of 1-4 outputs worth up to 2^46, both networks and all rates; the readable listing before each transaction is compared with the decoded hex. Distinct counts commands by number of inputs, transactions and outputs, network and rates.", func(c *C) {
		c.Require("identifier listed", 300)
		c.Require("exact value listed", 300)
		c.Require("large value listed", 100)
		c.Require("exact value of input listed", 300)
		c.Require("testnet address listed", 60)
		e, err := startExplorer(os.Getenv("VERIF_WORK"))
		if err != nil {
			panic(err)
		}
		theExplorer = e
		c.Cases("listings", c.Pick(900, 9000), listingCase)
	})
}
