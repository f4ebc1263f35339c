package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"sync"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"golang.org/x/crypto/ripemd160"
)

// This file is the reference the monitors compare with. It is written from the wire format and
// from the documented sizes, and does not call the code under test.

func varintLen(n uint64) int {
	switch {
	case n < 0xfd:
		return 1
	case n <= 0xffff:
		return 3
	case n <= 0xffffffff:
		return 5
	}
	return 9
}

func putVarint(b *bytes.Buffer, n uint64) {
	switch {
	case n < 0xfd:
		b.WriteByte(byte(n))
	case n <= 0xffff:
		b.WriteByte(0xfd)
		binary.Write(b, binary.LittleEndian, uint16(n))
	case n <= 0xffffffff:
		b.WriteByte(0xfe)
		binary.Write(b, binary.LittleEndian, uint32(n))
	default:
		b.WriteByte(0xff)
		binary.Write(b, binary.LittleEndian, n)
	}
}

func encodeOut(b *bytes.Buffer, o *wire.TxOut) {
	binary.Write(b, binary.LittleEndian, o.Value)
	putVarint(b, uint64(len(o.LockingScript)))
	b.Write(o.LockingScript)
}

func encodeTx(tx *wire.MsgTx) []byte {
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, tx.Version)
	putVarint(b, uint64(len(tx.TxIn)))
	for _, in := range tx.TxIn {
		b.Write(in.PreviousOutPoint.Hash[:])
		binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
		putVarint(b, uint64(len(in.UnlockingScript)))
		b.Write(in.UnlockingScript)
		binary.Write(b, binary.LittleEndian, in.Sequence)
	}
	putVarint(b, uint64(len(tx.TxOut)))
	for _, o := range tx.TxOut {
		encodeOut(b, o)
	}
	binary.Write(b, binary.LittleEndian, tx.LockTime)
	return b.Bytes()
}

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

// ceilFee is size*rate rounded up. The product is exact for sizes below 2^29.
func ceilFee(size int, rate float32) uint64 {
	return uint64(math.Ceil(float64(size) * float64(rate)))
}

func floorFee(size int, rate float32) uint64 {
	return uint64(math.Floor(float64(size) * float64(rate)))
}

func outSize(script []byte) int { return 8 + varintLen(uint64(len(script))) + len(script) }

func inSizeForUnlock(n int) int { return 40 + varintLen(uint64(n)) + n }

// Scripts whose unlocking size cannot be read off their bytes by the classifier are registered by
// the generator that built them.
var agentScripts sync.Map // string(script) -> int unlocking size
var dataScripts sync.Map  // string(unlocking script) -> [2]uint64 size, value

type scriptClass struct {
	kind     string
	hashes   [][]byte // public key hashes in order, or the public key for p2pk
	required int
	unlock   int // size of the unlocking script, -1 when unknown
}

func classify(s []byte) scriptClass {
	if len(s) == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac {
		return scriptClass{"p2pkh", [][]byte{s[3:23]}, 1, 108}
	}
	if len(s) == 35 && s[0] == 33 && s[34] == 0xac && (s[1] == 2 || s[1] == 3) {
		return scriptClass{"p2pk", [][]byte{s[1:34]}, 1, 74}
	}
	if c, ok := classifyMulti(s); ok {
		return c
	}
	if v, ok := agentScripts.Load(string(s)); ok {
		return scriptClass{"agent", nil, 0, v.(int)}
	}
	if len(s) > 0 && s[0] == 0x6a || len(s) > 1 && s[0] == 0 && s[1] == 0x6a {
		return scriptClass{"data", nil, 0, -1}
	}
	return scriptClass{"unknown", nil, 0, -1}
}

func classifyMulti(s []byte) (scriptClass, bool) {
	if len(s) < 5 || s[0] != 0 || s[1] != 0x6b {
		return scriptClass{}, false
	}
	var hashes [][]byte
	p := 2
	for p+30 <= len(s) && s[p] == 0x63 {
		if s[p+1] != 0x76 || s[p+2] != 0xa9 || s[p+3] != 20 ||
			!bytes.Equal(s[p+24:p+30], []byte{0x88, 0xad, 0x6c, 0x8b, 0x6b, 0x68}) {
			return scriptClass{}, false
		}
		hashes = append(hashes, s[p+4:p+24])
		p += 30
	}
	// threshold
	if p >= len(s) {
		return scriptClass{}, false
	}
	var m int
	switch {
	case s[p] >= 0x51 && s[p] <= 0x60:
		m = int(s[p] - 0x50)
		p++
	case s[p] == 1 && p+1 < len(s) && s[p+1] > 16 && s[p+1] < 128:
		m = int(s[p+1])
		p += 2
	case s[p] == 2 && p+2 < len(s):
		m = int(s[p+1]) + int(s[p+2])<<8
		if m < 128 || m > 32767 {
			return scriptClass{}, false
		}
		p += 3
	default:
		return scriptClass{}, false
	}
	if !bytes.Equal(s[p:], []byte{0x6c, 0xa1}) || m > len(hashes) {
		return scriptClass{}, false
	}
	return scriptClass{"multi", hashes, m, len(hashes) - m + 109*m}, true
}

// inSize is the size of an input spending the script; ok is false when the script is unsupported.
func inSize(script []byte) (int, bool) {
	c := classify(script)
	if c.unlock < 0 {
		return 0, false
	}
	return inSizeForUnlock(c.unlock), true
}

// estInput is the estimated signed size of one input of a builder.
func estInput(lock []byte, unlocking []byte) int {
	if len(lock) == 0 {
		if v, ok := dataScripts.Load(string(unlocking)); ok {
			return inSizeForUnlock(int(v.([2]uint64)[0]))
		}
	}
	if n, ok := inSize(lock); ok {
		return n
	}
	return 149
}

func (s *snap) estSize() int {
	n := 8 + varintLen(uint64(len(s.ins))) + varintLen(uint64(len(s.outs)))
	for i := range s.ins {
		n += estInput([]byte(s.ins[i].lock), []byte(s.ins[i].unlock))
	}
	for i := range s.outs {
		n += outSize([]byte(s.outs[i].script))
	}
	return n
}

func (s *snap) estFee() uint64 { return ceilFee(s.estSize(), s.feeRate) }

func (s *snap) inValue() uint64 {
	v := uint64(0)
	for i := range s.ins {
		v += s.ins[i].worth()
	}
	return v
}

func (in *snapIn) worth() uint64 {
	if in.value == 0 {
		if v, ok := dataScripts.Load(in.unlock); ok {
			return v.([2]uint64)[1]
		}
	}
	return in.value
}

func (s *snap) outValue() uint64 {
	v := uint64(0)
	for i := range s.outs {
		v += s.outs[i].value
	}
	return v
}

func (s *snap) fee() int64 { return int64(s.inValue()) - int64(s.outValue()) }

func (s *snap) remainder() int {
	for i := range s.outs {
		if s.outs[i].remainder {
			return i
		}
	}
	return -1
}

func (s *snap) remainders() (n int) {
	for i := range s.outs {
		if s.outs[i].remainder {
			n++
		}
	}
	return
}

// dustLimit is the documented dust limit of the builder for an output of the given size.
func dustLimit(size int, rate float32) uint64 {
	d := float64((size+148)*3) * float64(rate)
	if d < 1 {
		return 1
	}
	return uint64(d)
}

// ---------------------------------------------------------------------------------------------
// snapshots

type snapIn struct {
	hash   bitcoin.Hash32
	index  uint32
	seq    uint32
	unlock string
	lock   string
	value  uint64
	keyID  string
}

type snapOut struct {
	script    string
	value     uint64
	remainder bool
	dust      bool
	keyID     string
}

// snap is a deep copy of everything that can be observed of a builder.
type snap struct {
	version   int32
	lockTime  uint32
	ins       []snapIn
	outs      []snapOut
	change    string
	changeKey string
	feeRate   float32
	dustRate  float32
	sendMax   bool
}

func takeSnap(tx *txb.TxBuilder) *snap {
	s := &snap{
		version: tx.MsgTx.Version, lockTime: tx.MsgTx.LockTime,
		change: string(tx.ChangeScript), changeKey: tx.ChangeKeyID + "",
		feeRate: tx.FeeRate, dustRate: tx.DustFeeRate, sendMax: tx.SendMax,
	}
	if len(tx.Inputs) != len(tx.MsgTx.TxIn) || len(tx.Outputs) != len(tx.MsgTx.TxOut) {
		panic(misaligned(fmt.Sprintf("misaligned builder: %d inputs, %d supplements; %d outputs, %d supplements",
			len(tx.MsgTx.TxIn), len(tx.Inputs), len(tx.MsgTx.TxOut), len(tx.Outputs))))
	}
	s.ins = make([]snapIn, len(tx.Inputs))
	for i, in := range tx.MsgTx.TxIn {
		if in == nil {
			panic(misaligned(fmt.Sprintf("input %d is missing from the transaction", i)))
		}
		s.ins[i] = snapIn{
			hash: in.PreviousOutPoint.Hash, index: in.PreviousOutPoint.Index, seq: in.Sequence,
			unlock: string(in.UnlockingScript),
		}
		if sup := tx.Inputs[i]; sup != nil {
			s.ins[i].lock, s.ins[i].value, s.ins[i].keyID = string(sup.LockingScript), sup.Value, sup.KeyID+""
		}
	}
	s.outs = make([]snapOut, len(tx.Outputs))
	for i, o := range tx.MsgTx.TxOut {
		if o == nil {
			panic(misaligned(fmt.Sprintf("output %d is missing from the transaction", i)))
		}
		s.outs[i] = snapOut{script: string(o.LockingScript), value: o.Value}
		if sup := tx.Outputs[i]; sup != nil {
			s.outs[i].remainder, s.outs[i].dust, s.outs[i].keyID = sup.IsRemainder, sup.IsDust, sup.KeyID+""
		}
	}
	return s
}

type misaligned string

// Snap takes a snapshot; a builder whose supplements do not line up with its transaction is a
// violation of every property that looks at them.
func (k *K) Snap(tx *txb.TxBuilder) *snap {
	var s *snap
	var bad string
	func() {
		defer func() {
			if p := recover(); p != nil {
				m, ok := p.(misaligned)
				if !ok {
					panic(p)
				}
				bad = string(m)
			}
		}()
		s = takeSnap(tx)
	}()
	if bad != "" {
		k.Fail("misaligned", "%s", bad)
	}
	return s
}

func (s *snap) clone() *snap {
	r := *s
	r.ins = append([]snapIn(nil), s.ins...)
	r.outs = append([]snapOut(nil), s.outs...)
	return &r
}

// diff describes the first difference between two snapshots, or returns "".
func (s *snap) diff(o *snap) string {
	if s.version != o.version {
		return fmt.Sprintf("version %d -> %d", s.version, o.version)
	}
	if s.lockTime != o.lockTime {
		return fmt.Sprintf("lock time %d -> %d", s.lockTime, o.lockTime)
	}
	if len(s.ins) != len(o.ins) {
		return fmt.Sprintf("input count %d -> %d", len(s.ins), len(o.ins))
	}
	for i := range s.ins {
		if s.ins[i] != o.ins[i] {
			return fmt.Sprintf("input %d: %s -> %s", i, s.ins[i], o.ins[i])
		}
	}
	if len(s.outs) != len(o.outs) {
		return fmt.Sprintf("output count %d -> %d", len(s.outs), len(o.outs))
	}
	for i := range s.outs {
		if s.outs[i] != o.outs[i] {
			return fmt.Sprintf("output %d: %s -> %s", i, s.outs[i], o.outs[i])
		}
	}
	if s.change != o.change || s.changeKey != o.changeKey {
		return fmt.Sprintf("change destination %x/%s -> %x/%s", s.change, s.changeKey, o.change, o.changeKey)
	}
	if s.feeRate != o.feeRate || s.dustRate != o.dustRate || s.sendMax != o.sendMax {
		return fmt.Sprintf("settings %v/%v/%v -> %v/%v/%v", s.feeRate, s.dustRate, s.sendMax,
			o.feeRate, o.dustRate, o.sendMax)
	}
	return ""
}

func shortHex(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%x..(%d)", s[:16], len(s))
	}
	return fmt.Sprintf("%x", s)
}

func (in snapIn) String() string {
	return fmt.Sprintf("{%x..:%d seq %x unlock %s lock %s value %d key %q}", in.hash[:4], in.index,
		in.seq, shortHex(in.unlock), shortHex(in.lock), in.value, in.keyID)
}

func (o snapOut) String() string {
	return fmt.Sprintf("{%s value %d remainder %v dust %v key %q}", shortHex(o.script), o.value,
		o.remainder, o.dust, o.keyID)
}

func (s *snap) brief() string {
	kinds := map[string]int{}
	for i := range s.ins {
		kinds[classify([]byte(s.ins[i].lock)).kind]++
	}
	return fmt.Sprintf("rate %v dust %v ins %d%v worth %d outs %d worth %d remainder at %d change %s sendmax %v",
		s.feeRate, s.dustRate, len(s.ins), kinds, s.inValue(), len(s.outs), s.outValue(), s.remainder(),
		classify([]byte(s.change)).kind, s.sendMax)
}
