package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"
	"sync"

	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
)

type keyInfo struct {
	n    int
	key  bitcoin.Key
	pub  []byte
	pkh  []byte
	lock bitcoin.Script
}

const poolSize = 64

var (
	pool     [poolSize]*keyInfo
	poolOnce [poolSize]sync.Once
	keyByPKH sync.Map // string(pkh) -> *keyInfo
	keyByPub sync.Map
)

// poolKey returns the n-th key of a fixed set.
func poolKey(n int) *keyInfo {
	poolOnce[n].Do(func() {
		h := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", n)))
		key, err := bitcoin.KeyFromNumber(h[:], bitcoin.MainNet)
		if err != nil {
			panic(err)
		}
		ki := &keyInfo{n: n, key: key, pub: key.PublicKey().Bytes()}
		ki.pkh = hash160(ki.pub)
		ki.lock = p2pkhScript(ki.pkh)
		pool[n] = ki
		keyByPKH.Store(string(ki.pkh), ki)
		keyByPub.Store(string(ki.pub), ki)
	})
	return pool[n]
}

func p2pkhScript(pkh []byte) bitcoin.Script {
	return append(append([]byte{0x76, 0xa9, 20}, pkh...), 0x88, 0xac)
}

func p2pkScript(pub []byte) bitcoin.Script {
	return append(append([]byte{33}, pub...), 0xac)
}

func scriptNum(m int) []byte {
	switch {
	case m == 0:
		return []byte{0}
	case m <= 16:
		return []byte{byte(0x50 + m)}
	case m < 128:
		return []byte{1, byte(m)}
	}
	return []byte{2, byte(m), byte(m >> 8)}
}

func multiScript(required int, pkhs [][]byte) bitcoin.Script {
	b := []byte{0, 0x6b}
	for _, h := range pkhs {
		b = append(b, 0x63, 0x76, 0xa9, 20)
		b = append(b, h...)
		b = append(b, 0x88, 0xad, 0x6c, 0x8b, 0x6b, 0x68)
	}
	b = append(b, scriptNum(required)...)
	return append(b, 0x6c, 0xa1)
}

// lock is a generated locking script with what is needed to spend it.
type lock struct {
	script   bitcoin.Script
	kind     string
	keys     []*keyInfo // signers in script order
	required int
}

func (k *K) key() *keyInfo { return poolKey(k.Intn(poolSize)) }

func (k *K) keys(n int) []*keyInfo {
	perm := k.Perm(poolSize)[:n]
	r := make([]*keyInfo, n)
	for i, p := range perm {
		r[i] = poolKey(p)
	}
	return r
}

func (k *K) lockP2PKH() lock {
	ki := k.key()
	return lock{p2pkhScript(ki.pkh), "p2pkh", []*keyInfo{ki}, 1}
}

func (k *K) lockP2PK() lock {
	ki := k.key()
	return lock{p2pkScript(ki.pub), "p2pk", []*keyInfo{ki}, 1}
}

func (k *K) lockMulti() lock {
	n := 1 + k.Intn(5)
	if k.Intn(8) == 0 {
		n = 6 + k.Intn(18)
	}
	m := 1 + k.Intn(n)
	ks := k.keys(n)
	if n > 1 && k.Intn(10) == 0 {
		ks[k.Intn(n)] = ks[k.Intn(n)] // one signer with two votes
	}
	pkhs := make([][]byte, n)
	for i := range ks {
		pkhs[i] = ks[i].pkh
	}
	return lock{multiScript(m, pkhs), "multi", ks, m}
}

func (k *K) lockAgent() lock {
	var agent lock
	switch k.Intn(3) {
	case 0:
		agent = k.lockP2PK()
	case 1:
		agent = k.lockMulti()
	default:
		agent = k.lockP2PKH()
	}
	ra := agent.script.Copy()
	script, err := agent_bitcoin_transfer.CreateScript(ra, k.lockP2PKH().script, k.lockP2PKH().script,
		uint64(1000+k.Intn(100000)), k.lockP2PKH().script, uint32(1000+k.Intn(100000)))
	if err != nil {
		panic(fmt.Sprintf("agent script: %s", err))
	}
	agentScripts.Store(string(script), agent_bitcoin_transfer.ApproveUnlockingSize(classify(agent.script).unlock))
	return lock{script, "agent", agent.keys, agent.required}
}

func (k *K) bytes(n int) []byte {
	b := make([]byte, n)
	k.Read(b)
	return b
}

// lengths around every length prefix boundary
var edgeLengths = []int{0, 1, 2, 20, 75, 76, 100, 200, 250, 251, 252, 253, 254, 255, 256, 300, 520, 1000}
var hugeLengths = []int{65534, 65535, 65536, 65537, 70000}

func (k *K) lockData() lock {
	n := edgeLengths[k.Intn(len(edgeLengths))]
	if k.Intn(40) == 0 {
		n = hugeLengths[k.Intn(len(hugeLengths))]
	}
	b := append([]byte{0, 0x6a}, k.bytes(n)...)
	if k.Intn(3) == 0 {
		b = b[1:]
	}
	return lock{b, "data", nil, 0}
}

// lockUnknown is a script of no supported type that has the given length or a boundary length.
func (k *K) lockUnknown() lock {
	if k.Intn(3) == 0 {
		return k.lockAlmost()
	}
	n := edgeLengths[k.Intn(len(edgeLengths))]
	if n == 0 {
		n = 1
	}
	b := append([]byte{0x51}, k.bytes(n-1)...)
	return lock{b, "unknown", nil, 0}
}

// lockAlmost is a script of the length and nearly the bytes of a supported one.
func (k *K) lockAlmost() lock {
	for {
		var l lock
		switch k.Intn(3) {
		case 0:
			l = k.lockP2PK()
		case 1:
			l = k.lockMulti()
		default:
			l = k.lockP2PKH()
		}
		b := append([]byte(nil), l.script...)
		if k.Intn(2) == 0 {
			b[len(b)-1] = 0x61
		} else if l.kind == "p2pk" {
			b[len(b)-1] = 0xad
		} else {
			b[0] = 0x51
		}
		if classify(b).kind == "unknown" {
			return lock{b, "unknown", nil, 0}
		}
	}
}

// lockManySigners is a multi-signature script with more signers than fit in one byte.
func (k *K) lockManySigners() lock {
	n := 250 + k.Intn(40)
	pkhs := make([][]byte, n)
	ks := make([]*keyInfo, n)
	for i := range ks {
		ks[i] = k.key()
		pkhs[i] = ks[i].pkh
	}
	m := n - k.Intn(20)
	return lock{multiScript(m, pkhs), "multi", ks, m}
}

// lockSpendable is a script that signing supports.
func (k *K) lockSpendable() lock {
	switch k.Intn(10) {
	case 0, 1:
		return k.lockP2PK()
	case 2, 3, 4:
		return k.lockMulti()
	}
	return k.lockP2PKH()
}

// lockSized is a script whose unlocking size the library can estimate.
func (k *K) lockSized() lock {
	if k.Intn(12) == 0 {
		return k.lockAgent()
	}
	return k.lockSpendable()
}

// lockOutput is a script to pay to.
func (k *K) lockOutput() lock {
	switch k.Intn(12) {
	case 0, 1:
		return k.lockData()
	case 2:
		return k.lockUnknown()
	case 3:
		return k.lockAgent()
	}
	return k.lockSpendable()
}

var rates = []float32{0.05, 0.1, 0.25, 0.5, 1.0, 1.1, 2.0, 5.0, 10.5, 50, 0.001, 0.333, 7.77, 1000}
var dustRates = []float32{0, 0, 0.05, 0.25, 1.0, 1.0, 3.0}

func (k *K) rate() float32 {
	if k.Intn(10) == 0 {
		return k.Float32() * 3
	}
	return rates[k.Intn(len(rates))]
}

func (k *K) dustRate() float32 { return dustRates[k.Intn(len(dustRates))] }

// outpoint returns an outpoint that no other outpoint of the case equals.
func (k *K) hash() bitcoin.Hash32 {
	var h bitcoin.Hash32
	k.Read(h[:])
	return h
}

// outIndex picks positions of an output, large ones at times.
func (k *K) outIndex() uint32 {
	switch k.Intn(8) {
	case 0:
		return []uint32{9, 10, 127, 128, 252, 253, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 0xfffffffe}[k.Intn(16)]
	case 1:
		return k.Uint32() >> 1
	}
	return uint32(k.Intn(4))
}

func (k *K) utxo(l lock, value uint64) bitcoin.UTXO {
	return bitcoin.UTXO{
		Hash: k.hash(), Index: k.outIndex(), Value: value, LockingScript: l.script,
		KeyID: k.ident(),
	}
}

var oddIdents = []string{" ", "id ", " id", "a\x00", "\x00", "ключ-1", "ID-7", "m/44'/0'/0", "a\tb", "\"q\"", "\\", "-", "0", "null", "%s", strings.Repeat("k", 300), "id\n"}

func (k *K) ident() string {
	if k.Intn(3) == 0 {
		return ""
	}
	switch k.Intn(16) {
	case 0, 1:
		return string(rune('a' + k.Intn(26)))
	case 2:
		// anything a caller may use
		return oddIdents[k.Intn(len(oddIdents))]
	}
	return fmt.Sprintf("id-%d", k.Intn(1000000))
}

// value picks amounts of every magnitude.
func (k *K) value() uint64 {
	switch k.Intn(6) {
	case 0:
		return uint64(k.Intn(1000))
	case 1:
		return uint64(k.Intn(100000))
	case 2:
		return uint64(k.Int63n(2100000000000000))
	}
	return uint64(k.Intn(100000000))
}

// outAmount picks an amount that an output of this script may have at the given rate.
func (k *K) outAmount(script []byte, rate float32) uint64 {
	if c := classify(script); c.kind == "data" && k.Intn(2) == 0 {
		return 0
	}
	min := ceilFee(outSize(script), rate)
	switch k.Intn(12) {
	case 0, 1, 2:
		return min + uint64(k.Intn(3))
	case 3, 4, 5:
		return min + uint64(k.Intn(2000))
	case 6:
		return min + uint64(k.Int63n(50000000000000)) // more than 32 bits hold
	}
	return min + uint64(k.Intn(1000000))
}

// unlockingData makes an input script that carries unlocking data and registers its content.
func (k *K) unlockingData(size, value uint64) bitcoin.Script {
	d := &unlocking_data.UnlockingData{Size: size, Value: value}
	if k.Intn(2) == 0 {
		d.Party = unlocking_data.PartyCounterParty
	}
	script, err := channels.Wrap(d)
	if err != nil {
		panic(err)
	}
	dataScripts.Store(string(script), [2]uint64{size, value})
	return script
}

func shuffleKeys(k *K, keys []bitcoin.Key) []bitcoin.Key {
	r := make([]bitcoin.Key, len(keys))
	for i, p := range k.Perm(len(keys)) {
		r[i] = keys[p]
	}
	return r
}

// stateOpts describes what kind of builder to generate.
type stateOpts struct {
	many       bool // allow counts around 252
	huge       bool // allow counts of outputs around 65536
	noChange   bool
	remainders int  // most remainder outputs
	unlockData bool // allow inputs described by unlocking data
	lockIn     func() lock
}

// state is a generated builder together with the locks of its inputs.
type state struct {
	tx    *txb.TxBuilder
	locks []lock
}

// counts around the one byte/three byte boundary of the count prefix
func (k *K) boundaryCount() int { return 247 + k.Intn(10) }

// addInput puts an input on the builder, returning its utxo.
func (k *K) addInput(st *state, l lock, value uint64) bitcoin.UTXO {
	u := k.utxo(l, value)
	if k.Intn(4) == 0 {
		u.KeyID = ""
		if err := st.tx.AddInput(wire.OutPoint{Hash: u.Hash, Index: u.Index}, u.LockingScript, u.Value); err != nil {
			k.Fail("setup", "adding a fresh input was refused: %s", err)
		}
	} else if err := st.tx.AddInputUTXO(u); err != nil {
		k.Fail("setup", "adding a fresh input was refused: %s", err)
	}
	st.locks = append(st.locks, l)
	return u
}

// addDataInput puts an input on the builder that is known only by its unlocking data.
func (k *K) addDataInput(st *state, size, value uint64) {
	if err := st.tx.AddInput(wire.OutPoint{Hash: k.hash(), Index: k.outIndex()}, nil, 0); err != nil {
		k.Fail("setup", "adding a fresh input was refused: %s", err)
	}
	st.tx.MsgTx.TxIn[len(st.tx.MsgTx.TxIn)-1].UnlockingScript = k.unlockingData(size, value)
	st.locks = append(st.locks, lock{kind: "data-input"})
}

func (k *K) address(l lock) (bitcoin.RawAddress, bool) {
	var ra bitcoin.RawAddress
	var err error
	switch l.kind {
	case "p2pkh":
		ra, err = bitcoin.NewRawAddressPKH(l.keys[0].pkh)
	case "p2pk":
		var pk bitcoin.PublicKey
		pk, err = bitcoin.PublicKeyFromBytes(l.keys[0].pub)
		if err == nil {
			ra, err = bitcoin.NewRawAddressPublicKey(pk)
		}
	case "multi":
		pkhs := make([][]byte, len(l.keys))
		for i := range l.keys {
			pkhs[i] = l.keys[i].pkh
		}
		ra, err = bitcoin.NewRawAddressMultiPKH(l.required, pkhs)
	default:
		return ra, false
	}
	if err != nil {
		panic(err)
	}
	ls, err := ra.LockingScript()
	if err != nil || !bytes.Equal(ls, l.script) {
		return ra, false
	}
	return ra, true
}

// genState makes a builder with some inputs and outputs.
func (k *K) genState(o stateOpts) *state {
	st := &state{tx: txb.NewTxBuilder(k.rate(), k.dustRate())}
	if o.lockIn == nil {
		o.lockIn = k.lockSized
	}
	tx := st.tx
	if k.Intn(4) == 0 {
		tx.MsgTx.Version = int32(k.Uint32())
	}
	if k.Intn(4) == 0 {
		tx.MsgTx.LockTime = k.Uint32()
	}

	nIns := k.Intn(5)
	if o.many && k.Intn(12) == 0 {
		nIns = k.boundaryCount()
	}
	for i := 0; i < nIns; i++ {
		if o.unlockData && k.Intn(6) == 0 {
			k.addDataInput(st, uint64(k.Intn(400)+1), k.value()+1)
		} else if o.unlockData && k.Intn(20) == 0 {
			// unlocking data says nothing where the spent output is known
			k.addInput(st, o.lockIn(), k.value()+1)
			tx.MsgTx.TxIn[i].UnlockingScript = k.unlockingData(uint64(k.Intn(400)+1), k.value()+1)
		} else if nIns > 100 {
			k.addInput(st, k.lockP2PKH(), k.value())
		} else {
			k.addInput(st, o.lockIn(), k.value())
		}
		if k.Intn(5) == 0 {
			tx.MsgTx.TxIn[i].Sequence = k.Uint32()
		}
	}

	nOuts := k.Intn(6)
	if o.many && k.Intn(12) == 0 {
		nOuts = k.boundaryCount()
	}
	if o.huge && k.Intn(1500) == 0 {
		nOuts = 65530 + k.Intn(10)
	}
	for i := 0; i < nOuts; i++ {
		l := k.lockOutput()
		if nOuts > 100 {
			l = k.lockP2PKH()
		}
		if err := tx.AddOutput(l.script, k.outAmount(l.script, tx.FeeRate), false, k.Intn(6) == 0); err != nil {
			k.Fail("setup", "adding an output of sufficient value was refused: %s", err)
		}
		tx.Outputs[i].KeyID = k.ident()
	}
	for r := 0; r < o.remainders && nOuts > 0; r++ {
		if k.Intn(3) == 0 {
			tx.Outputs[k.Intn(nOuts)].IsRemainder = true
		}
	}
	if !o.noChange && k.Intn(4) != 0 {
		l := k.lockSpendable()
		if k.Intn(15) == 0 {
			l = k.lockUnknown()
		}
		tx.ChangeScript = l.script
		tx.ChangeKeyID = k.ident()
	}
	return st
}

func (k *K) traceState(name string, tx *txb.TxBuilder) *snap {
	s := k.Snap(tx)
	k.Tracef("%s: %s", name, s.brief())
	if len(s.ins) <= 6 {
		for i := range s.ins {
			k.Tracef("  in %d %s", i, s.ins[i])
		}
	}
	if len(s.outs) <= 8 {
		for i := range s.outs {
			k.Tracef("  out %d %s", i, s.outs[i])
		}
	}
	return s
}

func le32(n uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, n)
	return b
}
