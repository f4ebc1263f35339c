package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// interesting op codes: pushes of all forms, conditionals, separators, verifies
var hostileOps = []byte{0x00, 0x01, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x63, 0x64, 0x67, 0x68, 0x69,
	0x6a, 0x6b, 0x6c, 0x76, 0x7e, 0x7f, 0x82, 0x87, 0x88, 0x8b, 0xa0, 0xa1, 0xa9, 0xaa, 0xab, 0xac, 0xad, 0xae, 0xaf, 0xb1, 0xff, 33, 20, 65}

// hostileScript makes bytes that are close to something the library looks for.
func (k *K) hostileScript() []byte {
	var b []byte
	switch k.Intn(10) {
	case 0:
		b = k.bytes(k.Intn(60))
	case 1, 2:
		for n := 1 + k.Intn(12); n > 0; n-- {
			b = append(b, hostileOps[k.Intn(len(hostileOps))])
		}
		if k.Intn(3) == 0 {
			b = append([]byte{0x64}, b...)
		}
	case 3:
		b = k.lockP2PK().script.Copy()
	case 4:
		b = k.lockP2PKH().script.Copy()
	case 5, 6:
		b = k.lockMulti().script.Copy()
		if k.Intn(3) == 0 {
			// thresholds of any kind
			n := k.Intn(4)
			var pkhs [][]byte
			for i := 0; i < n; i++ {
				pkhs = append(pkhs, k.key().pkh)
			}
			b = multiScript(1, pkhs)
			b = b[:len(b)-3]
			switch k.Intn(5) {
			case 0:
				b = append(b, 2, byte(k.Intn(256)), byte(k.Intn(256)))
			case 1:
				b = append(b, 4, 0xff, 0xff, 0xff, byte(k.Intn(256)))
			case 2:
				b = append(b, 0x4f)
			case 3:
				b = append(append(b, 8), k.bytes(8)...)
			case 4:
				b = append(b, 0x4c, 0)
			}
			b = append(b, 0x6c, 0xa1)
		}
	case 7, 8:
		b = k.lockAgent().script.Copy()
	case 9:
		b = k.lockData().script.Copy()
		if len(b) > 2000 {
			b = b[:2000]
		}
	}
	for n := k.Intn(4); n > 0 && len(b) > 0; n-- {
		switch k.Intn(8) {
		case 0:
			b = b[:k.Intn(len(b)+1)]
		case 1:
			b[k.Intn(len(b))] ^= byte(1 << uint(k.Intn(8)))
		case 2:
			b[k.Intn(len(b))] = hostileOps[k.Intn(len(hostileOps))]
		case 3:
			i := k.Intn(len(b) + 1)
			b = append(append(append([]byte(nil), b[:i]...), hostileOps[k.Intn(len(hostileOps))]), b[i:]...)
		case 4:
			i := k.Intn(len(b))
			j := i + k.Intn(len(b)-i) + 1
			b = append(append([]byte(nil), b[:i]...), b[j:]...)
		case 5:
			i := k.Intn(len(b))
			j := i + k.Intn(len(b)-i) + 1
			if j-i < 200 {
				b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
			}
		case 6:
			b = append(b, hostileOps[k.Intn(len(hostileOps))])
		case 7:
			// a push that claims more than there is
			b = append(b, [][]byte{{0x4c, 0xff}, {0x4d, 0xff, 0xff}, {0x4e, 0xff, 0xff, 0xff, 0xff}, {0x4e, 0xff, 0xff, 0xff, 0x7f}, {0x4b}, {0x4d, 1}, {0x4e, 1, 2}}[k.Intn(7)]...)
		}
	}
	return b
}

var hostileSizes = []uint64{0, 1, 252, 253, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 41}

// hostileUnlocking makes an unlocking script that may carry unlocking data of any content.
func (k *K) hostileUnlocking() []byte {
	var b []byte
	switch k.Intn(5) {
	case 4:
		// an envelope that claims to hold more than there can be
		b = append([]byte{0, 0x6a, 2, 0xbd, 1, 8}, append(k.bytes(7), byte(k.Intn(128)))...)
		if k.Intn(2) == 0 {
			b = append([]byte{0, 0x6a, 2, 0xbd, 1, 0x51, 2, 'U', 'D', 8}, append(k.bytes(7), byte(k.Intn(128)))...)
		}
		return append(b, k.bytes(k.Intn(20))...)
	case 0:
		return k.hostileScript()
	case 1, 2:
		d := &unlocking_data.UnlockingData{Size: uint64(k.Intn(1000)), Value: k.value()}
		if k.Intn(2) == 0 {
			d.Size = hostileSizes[k.Intn(len(hostileSizes))]
		}
		s, err := channels.Wrap(d)
		if err != nil {
			return nil
		}
		b = s
		if k.Intn(2) == 0 {
			return b
		}
	case 3:
		b = append([]byte{0, 0x6a}, k.hostileScript()...)
	}
	for n := 1 + k.Intn(3); n > 0 && len(b) > 0; n-- {
		switch k.Intn(3) {
		case 0:
			b = b[:k.Intn(len(b)+1)]
		case 1:
			b[k.Intn(len(b))] ^= byte(1 << uint(k.Intn(8)))
		case 2:
			i := k.Intn(len(b))
			b = append(append(append([]byte(nil), b[:i]...), byte(k.Intn(256))), b[i:]...)
		}
	}
	return b
}

// memoryCase has unlocking scripts that claim to hold millions of items. Looking at them must not take
// memory for what is only claimed; the calculations are alone in the process while they are measured.
func memoryCase(k *K) {
	count := uint64(1) << uint(20+k.Intn(6))
	count -= uint64(k.Intn(3))
	n := []byte{4, byte(count), byte(count >> 8), byte(count >> 16), byte(count >> 24)}
	b := append([]byte{0, 0x6a, 2, 0xbd, 1}, n...)
	form := "protocols"
	if k.Intn(2) == 0 {
		form = "payload"
		b = append([]byte{0, 0x6a, 2, 0xbd, 1, 0x51, 2, 'U', 'D'}, n...)
	}
	for i := k.Intn(4); i > 0; i-- {
		b = append(b, 0x51)
	}
	tx := txb.NewTxBuilder(0.5, 0)
	tx.AddInput(wire.OutPoint{Hash: k.hash(), Index: k.outIndex()}, nil, 0)
	tx.MsgTx.TxIn[0].UnlockingScript = b
	e := &expanded_tx.ExpandedTx{Tx: tx.MsgTx, SpentOutputs: expanded_tx.Outputs{{}}}
	k.Tracef("%d %s claimed in %x", count, form, b)
	for _, call := range []struct {
		name string
		f    func()
	}{
		{"EstimatedSize", func() { tx.EstimatedSize() }},
		{"EstimatedFee", func() { tx.EstimatedFee() }},
		{"InputValue", func() { tx.InputValue() }},
		{"ActualFee", func() { tx.ActualFee() }},
		{"fees.EstimateSize", func() { fees.EstimateSize(e, sizer{}) }},
		{"fees.InputsValue", func() { fees.InputsValue(e) }},
		{"fees.EstimateInputSize", func() { fees.EstimateInputSize(tx.MsgTx.TxIn[0], nil, sizer{}) }},
	} {
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		k.Call(call.name, call.f)
		runtime.ReadMemStats(&after)
		used := after.TotalAlloc - before.TotalAlloc
		k.Check("memory in proportion", used < 4<<20, "%s of an input with an unlocking script of %d bytes took %d bytes of memory", call.name, len(b), used)
		k.Distinct("%s %s %d", call.name, form, count>>20)
	}
}

// plausible says whether a size is possible for what is there. No script can be longer than a
// message, which is limited to 4 GB.
func plausible(n int, inputs, bytes int) bool {
	return n >= 0 && uint64(n) <= uint64(inputs+1)*(1<<33)+uint64(bytes)
}

func hostileScriptCase(k *K) {
	for i := 0; i < 20; i++ {
		s := bitcoin.Script(k.hostileScript())
		c := classify(s)
		k.trace = nil
		k.Tracef("script %x", []byte(s))
		orig := append([]byte(nil), s...)
		size := func(what string, n int, err error) {
			k.Check("sizes", err != nil || n >= 0 && n < len(s)*200+100000, "%s of %x is %d", what, []byte(s), n)
		}
		k.Call("UnlockingScriptSize", func() {
			n, err := txb.UnlockingScriptSize(s)
			size("unlocking size", n, err)
			judgeSupport(k, s, c, n, err)
		})
		k.Call("InputSize", func() { n, err := txb.InputSize(s); size("input size", n, err) })
		k.Call("fees.EstimateUnlockingSize", func() {
			n, err := fees.EstimateUnlockingSize(s)
			size("unlocking size", n, err)
			judgeSupport(k, s, c, n, err)
		})
		k.Call("OutputTotalCost", func() { txb.OutputTotalCost(s, 0.5) })
		k.Call("fees.OutputTotalCost", func() { fees.OutputTotalCost(s, 0.5) })
		k.Call("LockingScriptInputFee", func() { txb.LockingScriptInputFee(s, 0.5) })
		k.Call("UTXOFee", func() { txb.UTXOFee(bitcoin.UTXO{LockingScript: s}, 0.5) })
		k.Call("UTXOInputSizeAndFee", func() { txb.UTXOInputSizeAndFee(bitcoin.UTXO{LockingScript: s}, 0.5) })
		k.Call("dust", func() {
			txb.DustLimitForLockingScript(s, 1)
			txb.OutputFeeAndDustForLockingScript(s, 1, 1)
			fees.DustLimitForLockingScript(s, 1)
		})
		tx := &wire.MsgTx{Version: 1, TxIn: []*wire.TxIn{{Sequence: 1}}}
		k.Call("SignatureHash", func() { txb.SignatureHash(tx, 0, s, 1, txb.SigHashAll|txb.SigHashForkID, &txb.SigHashCache{}) })
		k.Call("SignaturePreimage", func() {
			txb.SignaturePreimage(tx, 0, s, 1, txb.SigHashAll|txb.SigHashForkID, &txb.SigHashCache{})
		})
		k.Call("BreakValueLockingScripts", func() {
			txb.BreakValueLockingScripts(10000, 1000, []bitcoin.Script{s, s, s}, 1, 0.5, true, true)
		})
		k.Check("script kept", bytes.Equal(orig, s), "the script was changed from %x to %x", orig, []byte(s))
		k.Distinct("%s len%d first%x", c.kind, len(s), head2(orig))
	}
}

// judgeSupport compares what the library says about a script with the classifier.
func judgeSupport(k *K, s []byte, c scriptClass, n int, err error) {
	if c.unlock >= 0 {
		k.Check("supported", err == nil && n == c.unlock, "a %s script has unlocking size %d (%v), should be %d", c.kind, n, err, c.unlock)
		return
	}
	if err == nil {
		if looseSupported(s, n) {
			k.Skip("variant spelling of a supported script")
			return
		}
		k.Fail("unsupported", "%x is of no supported type but is given unlocking size %d", s, n)
	}
	k.Decide("unsupported")
}

// looseSupported accepts scripts that differ from a supported one only in how values are pushed, in
// the values embedded in an agent transfer, or in a key or threshold that no one would use.
func looseSupported(s []byte, n int) bool {
	items, ok := scriptItems(s)
	if !ok {
		return false
	}
	m, ok := looseItems(items)
	return ok && m == n
}

// item is an op code or the data of a push.
type item struct {
	op   byte
	data []byte
	push bool
}

func scriptItems(s []byte) ([]item, bool) {
	var r []item
	for p := 0; p < len(s); {
		op := s[p]
		p++
		n := -1
		switch {
		case op >= 1 && op <= 0x4b:
			n = int(op)
		case op >= 0x4c && op <= 0x4e:
			w := 1 << (op - 0x4c)
			if p+w > len(s) {
				return nil, false
			}
			n = 0
			for i := w - 1; i >= 0; i-- {
				n = n<<8 | int(s[p+i])
			}
			p += w
		}
		if n <= 0 {
			if n == 0 {
				op = 0 // an empty push by its longer name
			}
			r = append(r, item{op: op})
			continue
		}
		if n > len(s)-p {
			return nil, false
		}
		r = append(r, item{data: s[p : p+n], push: true})
		p += n
	}
	return r, true
}

func looksLike(items []item, ops string) bool {
	// h is a hash, k a public key, f 32 bytes, t a number
	var want []item
	for _, w := range strings.Fields(ops) {
		switch w {
		case "h":
			want = append(want, item{push: true, data: make([]byte, 20)})
		case "k":
			want = append(want, item{push: true, data: make([]byte, 33)})
		default:
			b, _ := hex.DecodeString(w)
			want = append(want, item{op: b[0]})
		}
	}
	return sameShape(items, want)
}

// sameShape compares items, ignoring the content of pushes of 20 bytes or more.
func sameShape(a, b []item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].push != b[i].push || a[i].op != b[i].op || len(a[i].data) != len(b[i].data) {
			return false
		}
		if a[i].push && len(a[i].data) < 20 && !bytes.Equal(a[i].data, b[i].data) {
			return false
		}
	}
	return true
}

func looseNumber(it item) (int, bool) {
	if !it.push {
		switch {
		case it.op == 0:
			return 0, true
		case it.op >= 0x51 && it.op <= 0x60:
			return int(it.op) - 0x50, true
		}
		return 0, false
	}
	if len(it.data) == 0 || len(it.data) > 8 || it.data[len(it.data)-1] >= 0x80 {
		return 0, false
	}
	n := 0
	for i := len(it.data) - 1; i >= 0; i-- {
		n = n<<8 | int(it.data[i])
	}
	return n, true
}

func looseItems(items []item) (int, bool) {
	if looksLike(items, "76 a9 h 88 ac") {
		return 108, true
	}
	if looksLike(items, "k ac") {
		return 74, true
	}
	if len(items) >= 5 && looksLike(items[:2], "00 6b") {
		rest := items[2:]
		total := 0
		for len(rest) >= 10 && looksLike(rest[:10], "63 76 a9 h 88 ad 6c 8b 6b 68") {
			total++
			rest = rest[10:]
		}
		if len(rest) != 3 || !looksLike(rest[1:], "6c a1") {
			return 0, false
		}
		m, ok := looseNumber(rest[0])
		return total - m + 109*m, ok && m <= total
	}
	return looseAgent(items)
}

// agentShape is the constant parts of an agent transfer: between the agent's script and the recovery
// script, before the lock time, and after it.
var agentShape = sync.OnceValue(func() [3][]item {
	h := func(b byte) bitcoin.Script {
		return bitcoin.Script(append(append([]byte{0x76, 0xa9, 20}, bytes.Repeat([]byte{b}, 20)...), 0x88, 0xac))
	}
	s, err := agent_bitcoin_transfer.CreateScript(h(1), h(2), h(3), 5000, h(4), 0x123456)
	if err != nil {
		panic(err)
	}
	items, ok := scriptItems(s)
	if !ok || !looksLike(items[:7], "64 76 a9 h 88 ad 64") {
		panic("agent shape")
	}
	var at, lt int
	for i := range items {
		if items[i].push && bytes.Equal(items[i].data, bytes.Repeat([]byte{4}, 20)) {
			at = i
		}
		if items[i].push && len(items[i].data) == 4 && items[i].data[0] == 0x56 {
			lt = i
		}
	}
	if at == 0 || lt < at || !looksLike(items[at-2:at+3], "76 a9 h 88 ad") {
		panic("agent shape")
	}
	return [3][]item{items[6 : at-2], items[at+3 : lt], items[lt+1:]}
})

func looseAgent(items []item) (int, bool) {
	shape := agentShape()
	if len(items) < 3 || items[0].push || items[0].op != 0x64 {
		return 0, false
	}
	e := 1
	for e < len(items) && (items[e].push || items[e].op != 0x64) {
		e++
	}
	if len(items) < e+len(shape[0])+1+len(shape[1])+1+len(shape[2]) {
		return 0, false
	}
	end := len(items) - len(shape[2])
	if !sameShape(items[e:e+len(shape[0])], shape[0]) || !sameShape(items[end:], shape[2]) ||
		!sameShape(items[end-1-len(shape[1]):end-1], shape[1]) || !items[end-1].push {
		return 0, false
	}
	sub := append([]item(nil), items[1:e]...)
	if len(sub) == 0 {
		return 0, false
	}
	if last := &sub[len(sub)-1]; !last.push {
		switch last.op {
		case 0x69:
			sub = sub[:len(sub)-1]
		case 0xad:
			last.op = 0xac
		}
	}
	n, ok := looseItems(sub)
	return agent_bitcoin_transfer.ApproveUnlockingSize(n), ok
}

func hostileBuilderCase(k *K) {
	tx := txb.NewTxBuilder([]float32{0.05, 0.5, 1}[k.Intn(3)], k.dustRate())
	total := 0
	var scripts []string
	script := func() bitcoin.Script {
		if k.Intn(4) == 0 {
			return k.lockSized().script
		}
		b := k.hostileScript()
		scripts = append(scripts, fmt.Sprintf("%x", b))
		total += len(b)
		return b
	}
	var unlockings []string
	for n := 1 + k.Intn(3); n > 0; n-- {
		u := k.utxo(lock{script: script()}, k.value())
		if k.Intn(4) == 0 {
			u.LockingScript = nil
			if k.Intn(2) == 0 {
				u.Value = 0
			}
		}
		k.Tracef("AddInputUTXO %x %d", []byte(u.LockingScript), u.Value)
		k.Call("AddInputUTXO", func() { tx.AddInputUTXO(u) })
		if k.Intn(2) == 0 {
			b := k.hostileUnlocking()
			k.Tracef("unlocking script %x", b)
			unlockings = append(unlockings, fmt.Sprintf("%x", b))
			tx.MsgTx.TxIn[len(tx.MsgTx.TxIn)-1].UnlockingScript = b
		}
	}
	for n := k.Intn(4); n > 0; n-- {
		s := script()
		k.Tracef("AddOutput %x", []byte(s))
		k.Call("AddOutput", func() { tx.AddOutput(s, 10000, k.Intn(4) == 0, false) })
	}
	if k.Intn(2) == 0 {
		s := script()
		k.Tracef("SetChangeLockingScript %x", []byte(s))
		k.Call("SetChangeLockingScript", func() { tx.SetChangeLockingScript(s, "c") })
	}
	ask := func() {
		k.Call("EstimatedSize", func() {
			n := tx.EstimatedSize()
			k.Check("estimated size", plausible(n, len(tx.Inputs), len(encodeTx(tx.MsgTx))), "the estimated size is %d", n)
		})
		k.Call("EstimatedFee", func() {
			f := tx.EstimatedFee()
			k.Check("estimated fee", f < 1<<40, "the estimated fee is %d", f)
		})
		k.Call("queries", func() { queries(tx) })
		k.Call("fees.EstimateSize", func() {
			p := &provider{tx: tx.MsgTx}
			for _, in := range tx.Inputs {
				p.spent = append(p.spent, &wire.TxOut{Value: in.Value, LockingScript: in.LockingScript})
			}
			n, err := fees.EstimateSize(p, sizer{})
			k.Check("standalone size", err != nil || plausible(n, len(tx.Inputs), len(encodeTx(tx.MsgTx))), "the standalone size is %d", n)
			fees.Fee(p)
			fees.EstimateFee(p, sizer{}, 0.5)
		})
		k.Call("TxString", func() {
			p := &provider{tx: tx.MsgTx}
			for _, in := range tx.Inputs {
				if len(in.LockingScript) == 0 {
					p.spent = append(p.spent, nil)
				} else {
					p.spent = append(p.spent, &wire.TxOut{Value: in.Value, LockingScript: in.LockingScript})
				}
			}
			d := parseText(txb.TxString(p), "Outpoint", "Locking script")
			if t, ok := d.tail.get("Estimated tx size"); ok {
				n := 0
				fmt.Sscanf(t, "%d bytes", &n)
				k.Check("size in text", plausible(n, len(tx.Inputs), len(encodeTx(tx.MsgTx))), "the text gives the size as %s", t)
			}
		})
	}
	ask()
	for n := 1 + k.Intn(3); n > 0; n-- {
		switch k.Intn(5) {
		case 0:
			var us []bitcoin.UTXO
			for i := k.Intn(4); i > 0; i-- {
				us = append(us, k.utxo(lock{script: script()}, k.value()))
				k.Tracef("offer %x %d", []byte(us[len(us)-1].LockingScript), us[len(us)-1].Value)
			}
			k.Call("AddFunding", func() { tx.AddFunding(us) })
		case 1:
			var us []bitcoin.UTXO
			for i := 1 + k.Intn(3); i > 0; i-- {
				us = append(us, k.utxo(lock{script: script()}, k.value()))
				k.Tracef("offer %x %d", []byte(us[len(us)-1].LockingScript), us[len(us)-1].Value)
			}
			addrs, _ := k.changeAddresses(1+k.Intn(3), nil)
			k.Call("AddFundingBreakChange", func() { tx.AddFundingBreakChange(us, 1000, addrs) })
		case 2, 3:
			keys := []bitcoin.Key{k.key().key}
			for _, in := range tx.Inputs {
				for j, h := range hashesIn(in.LockingScript) {
					if v, ok := keyByPKH.Load(string(h)); ok && j < 4 {
						keys = append(keys, v.(*keyInfo).key)
					}
				}
			}
			if len(keys) > 10 {
				keys = keys[:10]
			}
			var err error
			if k.Intn(2) == 0 {
				k.Call("Sign", func() { _, err = tx.Sign(keys) })
			} else {
				k.Call("SignOnly", func() { _, err = tx.SignOnly(keys) })
			}
			k.Tracef("sign: %v", err)
			k.Call("SignP2PKHInput", func() { tx.SignP2PKHInput(k.Intn(len(tx.Inputs)), keys[0], &txb.SigHashCache{}) })
		case 4:
			k.Call("CalculateFee", func() { tx.CalculateFee() })
			k.Call("ZeroizeFee", func() { tx.ZeroizeFee() })
		}
		ask()
	}
	k.Distinct("%v %v", scripts, unlockings)
	k.Sample(map[string]interface{}{"scripts": scripts, "unlocking_scripts": unlockings})
}

// hashesIn finds 20 byte pushes.
func hashesIn(s []byte) (r [][]byte) {
	for i := 0; i+20 < len(s); i++ {
		if s[i] == 20 {
			r = append(r, s[i+1:i+21])
		}
	}
	return
}

func init() {
	register("C29", "Random bytes, sequences of op codes, and truncated, mutated, spliced and extended forms of every supported script type, thresholds of any kind, and unlocking data with any content or damaged are put through every calculation, and on builders through funding, signing, fee adjustment, queries and text; no call may panic or hang, sizes have to be possible, and scripts the classifier does not know must not be given a size; the memory taken by each calculation is measured for unlocking scripts that claim millions of items. Distinct counts scripts by kind, length and first bytes, and sets of scripts on a builder.", func(c *C) {
		c.Require("unsupported", 50000)
		c.Require("supported", 5000)
		c.Require("estimated size", 10000)
		c.Require("memory in proportion", 300)
		c.CasesSerial("claims", c.Pick(100, 1000), memoryCase)
		c.Cases("scripts", c.Pick(20000, 200000), hostileScriptCase)
		c.Cases("builders", c.Pick(20000, 200000), hostileBuilderCase)
	})
}

func head2(b []byte) []byte {
	if len(b) > 2 {
		return b[:2]
	}
	return b
}
