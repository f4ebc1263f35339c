package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httputil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"github.com/btcsuite/btcd/btcec"
)

// Private keys stay with those who were given them.

// secretForms are the ways a private key may be written.
func secretForms(number []byte) []string {
	n := append(make([]byte, 32-len(number)), number...)
	back := make([]byte, 32)
	for i := range n {
		back[31-i] = n[i]
	}
	r := []string{string(n), string(back), hex.EncodeToString(n), strings.ToUpper(hex.EncodeToString(n)), hex.EncodeToString(back),
		new(big.Int).SetBytes(n).String(), base64.StdEncoding.EncodeToString(n), base64.URLEncoding.EncodeToString(n), fmt.Sprint(n)}
	for _, version := range []byte{0x80, 0xef} {
		for _, compressed := range []bool{false, true} {
			b := append([]byte{version}, n...)
			if compressed {
				b = append(b, 1)
			}
			b = append(b, dsha(b)[:4]...)
			r = append(r, hex.EncodeToString(b), base58Text(b))
		}
	}
	return r
}

func base58Text(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var r []byte
	for m := new(big.Int); n.Sign() > 0; {
		n.DivMod(n, big.NewInt(58), m)
		r = append([]byte{base58[m.Int64()]}, r...)
	}
	return string(r)
}

// revealed returns the form in which a text contains one of the keys.
func revealed(text string, forms [][]string) string {
	for _, f := range forms {
		for _, s := range f {
			if strings.Contains(text, s) {
				return s
			}
		}
	}
	return ""
}

// reach collects every text and byte string that can be reached from a value, and counts the keys.
type reach struct {
	text strings.Builder
	keys int
	n    int
	seen map[uintptr]bool
}

var keyType = reflect.TypeOf(bitcoin.Key{})

func (r *reach) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 40 {
		return
	}
	r.n++
	if v.Type() == keyType {
		r.keys++
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || r.seen[v.Pointer()] {
			return
		}
		r.seen[v.Pointer()] = true
		r.walk(v.Elem(), depth+1)
	case reflect.Interface:
		r.walk(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() < v.Cap() {
			v = v.Slice(0, v.Len())
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			r.text.Write(b)
			r.text.WriteByte('\n')
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, key := range v.MapKeys() {
			r.walk(key, depth+1)
			r.walk(v.MapIndex(key), depth+1)
		}
	case reflect.String:
		r.text.WriteString(v.String())
		r.text.WriteByte('\n')
	}
}

// nonces remembers which digest a key signed with which nonce.
type nonces struct {
	mu   sync.Mutex
	seen map[string]string
}

// signatures judges the nonces of all signatures of a transaction.
func (ns *nonces) signatures(k *K, m *wire.MsgTx, s *snap) {
	for i := range s.ins {
		if i >= 12 {
			break
		}
		items, ok := pushes([]byte(s.ins[i].unlock))
		if !ok {
			continue
		}
		l := lockOfScript([]byte(s.ins[i].lock))
		for _, sig := range items {
			if len(sig) < 60 || len(sig) > 73 || sig[0] != 0x30 {
				continue
			}
			for _, ki := range l.keys {
				if checkSig(m, i, []byte(s.ins[i].lock), s.ins[i].value, sig, ki.pub) {
					code, _ := afterSeparator([]byte(s.ins[i].lock))
					ns.judge(k, ki, sig, dsha(refPreimage(m, i, code, s.ins[i].value, uint32(sig[len(sig)-1]))))
				}
			}
		}
	}
}

// judge works out the nonce of a signature, which gives the key away if others can tell it or if it
// is used again.
func (ns *nonces) judge(k *K, ki *keyInfo, sig, digest []byte) {
	p, err := btcec.ParseDERSignature(sig[:len(sig)-1], btcec.S256())
	if err != nil {
		return
	}
	z := new(big.Int).SetBytes(digest)
	d := new(big.Int).SetBytes(ki.key.Number())
	n := new(big.Int).Mul(p.R, d)
	n.Add(n, z).Mul(n, new(big.Int).ModInverse(p.S, curveN)).Mod(n, curveN)
	other := new(big.Int).Sub(curveN, n)
	k.Check("nonce can't be guessed", n.BitLen() > 128 && other.BitLen() > 128 && n.Cmp(d) != 0 && other.Cmp(d) != 0 && n.Cmp(z) != 0 && other.Cmp(z) != 0,
		"the nonce of a signature is %x, for digest %x", n, digest)
	ns.mu.Lock()
	id := string(ki.pub) + string(p.R.Bytes())
	had, ok := ns.seen[id]
	ns.seen[id] = string(digest)
	ns.mu.Unlock()
	k.Check("nonce not used twice", !ok || had == string(digest), "one key signed two different digests %x and %x with the same nonce", had, digest)
}

func (k *K) secretCase(ns *nonces) {
	sg := k.genSignable()
	tx := sg.tx
	pre := k.traceState("before signing", tx)
	keys := k.withStrangers(k.neededKeys(pre))
	if len(keys) > 1 && k.Intn(3) == 0 {
		keys = keys[:k.Intn(len(keys))] // not all
	}
	forms := make([][]string, len(keys))
	for i, key := range keys {
		forms[i] = secretForms(key.Number())
	}
	var log []interface{} // everything that is returned except the keys
	how := ""
	switch k.Intn(5) {
	case 0:
		how = "SignOnly"
		k.Call(how, func() { _, err := tx.SignOnly(keys); log = append(log, err) })
	case 1:
		how = "SignP2PKHInput"
		cache := &txb.SigHashCache{}
		for i := range tx.Inputs {
			for _, key := range keys {
				key := key
				k.Call(how, func() { log = append(log, tx.SignP2PKHInput(i, key, cache)) })
			}
			if i > 8 {
				break
			}
		}
		log = append(log, cache)
	case 2:
		how = "by hand"
		cache := &txb.SigHashCache{}
		for i := range tx.Inputs {
			if i > 8 || len(keys) == 0 {
				break
			}
			key := keys[k.Intn(len(keys))]
			in := tx.Inputs[i]
			k.Call("P2PKHUnlockingScript", func() {
				s, err := txb.P2PKHUnlockingScript(key, tx.MsgTx, i, in.LockingScript, in.Value, txb.SigHashAll|txb.SigHashForkID, cache)
				log = append(log, s, err)
			})
			k.Call("P2PKUnlockingScript", func() {
				s, err := txb.P2PKUnlockingScript(key, tx.MsgTx, i, in.LockingScript, in.Value, txb.SigHashAll|txb.SigHashForkID, cache)
				log = append(log, s, err)
			})
			for n := 0; n < 4; n++ {
				ht := []txb.SigHashType{txb.SigHashAll, txb.SigHashNone, txb.SigHashSingle, txb.SigHashAll | txb.SigHashAnyOneCanPay, txb.SigHashSingle | txb.SigHashAnyOneCanPay}[k.Intn(5)] | txb.SigHashForkID
				k.Call("InputSignature", func() {
					s, err := txb.InputSignature(key, tx.MsgTx, i, in.LockingScript, in.Value, ht, cache)
					log = append(log, s, err)
					for _, ki := range lockOfScript(in.LockingScript).keys {
						if err == nil && string(ki.key.Number()) == string(key.Number()) && checkSig(tx.MsgTx, i, in.LockingScript, in.Value, s, ki.pub) {
							code, _ := afterSeparator(in.LockingScript)
							ns.judge(k, ki, s, dsha(refPreimage(tx.MsgTx, i, code, in.Value, uint32(s[len(s)-1]))))
						}
					}
				})
			}
		}
		log = append(log, cache)
	default:
		how = "Sign"
		k.Call(how, func() { _, err := tx.Sign(keys); log = append(log, err) })
	}
	for _, v := range log {
		if err, ok := v.(error); ok && err != nil {
			f := revealed(fmt.Sprintf("%s %v %+v", err.Error(), err, err), forms)
			k.Check("not in errors", f == "", "the error of %s contains a private key: %s", how, f)
		}
	}
	r := &reach{seen: map[uintptr]bool{}}
	r.walk(reflect.ValueOf(tx), 0)
	r.walk(reflect.ValueOf(log), 0)
	for _, key := range r.forms(tx) {
		r.text.WriteString(key)
	}
	f := revealed(r.text.String(), forms)
	k.Check("not kept", f == "" && r.keys == 0, "after %s a private key can be found in the builder or in what was returned: %q, %d keys", how, f, r.keys)
	k.events["values looked at"] += r.n
	post := k.Snap(tx)
	ns.signatures(k, tx.MsgTx, post)
	k.Distinct("%s %s keys%d ins%d", how, pre.kinds(), len(keys), bucket(len(pre.ins)))
	k.Sample(map[string]interface{}{"how": how, "keys": len(keys), "bytes_searched": r.text.Len(), "state": post.brief()})
}

// forms are the ways a builder can be written out.
func (r *reach) forms(tx *txb.TxBuilder) []string {
	b, _ := tx.Serialize()
	return []string{string(b), hex.EncodeToString(b), tx.String(bitcoin.MainNet), tx.String(bitcoin.TestNet), txb.TxString(tx)}
}

// toolSecretCase looks at everything the tool prints, logs, sends and writes.
func toolSecretCase(k *K) {
	t := k.toolSetup()
	kb := k.bytes(32)
	kb[0] = 1
	key, err := bitcoin.KeyFromNumber(kb, t.bnet)
	if err != nil {
		panic(err)
	}
	t.key = &keyInfo{key: key, pub: key.PublicKey().Bytes()}
	t.key.pkh = hash160(t.key.pub)
	t.keyText = t.keyString(kb)
	t.own = p2pkhScript(t.key.pkh)
	forms := [][]string{append(secretForms(kb), t.keyText)}
	value := func() uint64 { return uint64(1000 + k.Intn(100000)) }
	n := 1 + k.Intn(3)
	var args []string
	kind := k.Intn(3)
	if kind == 2 {
		_, path, a := t.listCoins(n, value)
		defer theExplorer.answers.Delete(path)
		t.asked = append(t.asked, a)
		to := k.lockP2PKH()
		args = []string{"consolidate", t.keyText, bitcoin.BIP0276Encode(t.bnet, bitcoin.BIP0276_ScriptPrefix, to.script)}
	} else {
		t.fund(n, value)
		defer t.forget()
		if kind == 0 {
			args = append([]string{"create_send", t.keyText, hashAddress(k.key().pkh, t.network), fmt.Sprint(k.Intn(200000))}, t.outpoints()...)
		} else {
			args = append([]string{"create_sends", fmt.Sprint(1 + k.Intn(3)), t.keyText}, t.outpoints()...)
		}
	}
	wrong := ""
	switch k.Intn(6) {
	case 0:
		t.spoil(kind == 2)
		wrong = t.faulty
	case 1:
		wrong = "too few arguments"
		args = args[:3-kind/2]
	case 2:
		if kind == 0 {
			wrong = "address or amount"
			i := 2 + k.Intn(2)
			args[i] = damage(k, args[i])
		} else if kind == 1 {
			wrong = "outpoint"
			args[3] = damage(k, args[3])
		} else {
			wrong = "recipient"
			args[2] = damage(k, args[2])
		}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "secret")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	sent := &strings.Builder{}
	var mu sync.Mutex
	id := new(int)
	watchers.Store(id, func(dump string) {
		mu.Lock()
		sent.WriteString(dump)
		mu.Unlock()
	})
	defer watchers.Delete(id)
	out, errs := k.runToolIn(dir, t.rate, t.dust, t.network, args...)
	f := revealed(out, forms)
	k.Check("not printed", f == "", "the tool printed the private key: %s", f)
	f = revealed(errs, forms)
	k.Check("not logged", f == "", "the tool logged the private key: %s", f)
	mu.Lock()
	requests := sent.String()
	mu.Unlock()
	f = revealed(requests, forms)
	k.Check("not sent", f == "", "the tool sent the private key to the explorer: %s", f)
	if len(requests) > 0 {
		k.Decide("requests seen")
	}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			k.Event("file written")
			b, _ := os.ReadFile(path)
			f := revealed(string(b), forms)
			k.Check("not written", f == "", "the tool wrote the private key to the file %s", filepath.Base(path))
		}
		return nil
	})
	if strings.Contains(out, "Tx Hex : ") {
		k.Decide("transaction printed")
	}
	k.Distinct("%s wrong %s n%d net %s", args[0], wrong, n, t.net())
	k.Sample(map[string]interface{}{"command": args[0], "wrong": wrong, "printed_bytes": len(out), "logged_bytes": len(errs), "sent_bytes": len(requests)})
}

// watchers are told every request the explorer gets.
var watchers sync.Map

func watchRequest(r *http.Request) {
	b, _ := httputil.DumpRequest(r, false)
	body, _ := io.ReadAll(io.LimitReader(r.Body, 1<<20))
	dump := string(b) + string(body) + r.URL.String() + r.Host
	watchers.Range(func(_, f interface{}) bool {
		f.(func(string))(dump)
		return true
	})
}

func init() {
	register("C36", "Signable builders from the seed are signed in every way, with too few and too many keys, and everything that can be reached from the builder, the hash fragments, the returned scripts and the errors is searched for the keys in eleven spellings; the nonces of the signatures are worked out and compared over the whole run. The tool is run as a process with valid and spoiled arguments and answers, and what it prints, logs, writes and sends is searched. Distinct counts ways of signing with script kinds, keys and inputs, and commands with what was wrong.", func(c *C) {
		c.Require("not kept", 1500)
		c.Require("not in errors", 300)
		c.Require("nonce can't be guessed", 2000)
		c.Require("nonce not used twice", 2000)
		c.Require("not printed", 300)
		c.Require("not logged", 300)
		c.Require("not sent", 300)
		c.Require("requests seen", 200)
		c.Require("transaction printed", 80)
		ns := &nonces{seen: map[string]string{}}
		c.Cases("library", c.Pick(2000, 20000), func(k *K) { k.secretCase(ns) })
		e, err := startExplorer(os.Getenv("VERIF_WORK"))
		if err != nil {
			panic(err)
		}
		e.watch = watchRequest
		theExplorer = e
		c.Cases("tool", c.Pick(500, 5000), toolSecretCase)
	})
}
