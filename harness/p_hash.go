package main

import (
	"bytes"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
)

// genMsgTx makes a transaction of any shape.
func (k *K) genMsgTx() *wire.MsgTx {
	tx := &wire.MsgTx{Version: 1}
	switch k.Intn(4) {
	case 0:
		tx.Version = int32(k.Uint32())
	case 1:
		tx.Version = []int32{0, 2, -1, 1 << 30}[k.Intn(4)]
	}
	if k.Intn(2) == 0 {
		tx.LockTime = k.Uint32()
	}
	nIn, nOut := 1+k.Intn(5), k.Intn(6)
	if k.Intn(40) == 0 {
		nIn = k.boundaryCount()
	}
	if k.Intn(40) == 0 {
		nOut = k.boundaryCount()
	}
	for i := 0; i < nIn; i++ {
		in := &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: k.hash(), Index: k.Uint32()}, Sequence: 0xffffffff}
		if k.Intn(2) == 0 {
			in.PreviousOutPoint.Index = uint32(k.Intn(3))
		}
		switch k.Intn(3) {
		case 0:
			in.Sequence = k.Uint32()
		case 1:
			in.Sequence = []uint32{0, 1, 0xfffffffe}[k.Intn(3)]
		}
		if k.Intn(3) == 0 {
			in.UnlockingScript = k.bytes(k.Intn(120))
		}
		tx.TxIn = append(tx.TxIn, in)
	}
	for i := 0; i < nOut; i++ {
		l := k.lockOutput()
		if nOut > 100 {
			l = k.lockP2PKH()
		}
		v := k.value()
		if k.Intn(8) == 0 {
			v = k.Uint64()
		}
		tx.TxOut = append(tx.TxOut, &wire.TxOut{LockingScript: l.script, Value: v})
	}
	return tx
}

// bareOutputs takes the script or the value away from some outputs.
func (k *K) bareOutputs(tx *wire.MsgTx) {
	for _, out := range tx.TxOut {
		switch k.Intn(16) {
		case 0:
			out.LockingScript = nil
		case 1:
			out.Value = 0
		case 2:
			out.LockingScript, out.Value = nil, 0
		}
	}
}

// separatorScript is a sequence of complete operations with code separators, inside and outside of
// push data, and pushes that are not minimal.
func (k *K) separatorScript() []byte {
	var b []byte
	for n := k.Intn(12); n > 0; n-- {
		switch k.Intn(9) {
		case 0, 1:
			b = append(b, opCodeSep)
		case 2:
			d := k.bytes(1 + k.Intn(75))
			if k.Intn(2) == 0 {
				d[k.Intn(len(d))] = opCodeSep
			}
			b = append(append(b, byte(len(d))), d...)
		case 3:
			// longer prefix than needed
			d := k.bytes(k.Intn(80))
			if len(d) > 0 && k.Intn(2) == 0 {
				d[len(d)-1] = opCodeSep
			}
			b = append(append(b, 76, byte(len(d))), d...)
		case 4:
			d := k.bytes([]int{0, 1, 5, 75, 76, 255, 256, 300}[k.Intn(8)])
			if len(d) > 0 && k.Intn(2) == 0 {
				d[0] = opCodeSep
			}
			b = append(append(b, 77, byte(len(d)), byte(len(d)>>8)), d...)
		case 5:
			d := k.bytes([]int{0, 1, 5, 75, 76, 255, 256, 300}[k.Intn(8)])
			b = append(append(b, 78, byte(len(d)), byte(len(d)>>8), 0, 0), d...)
		case 6:
			// one byte values that have an op code of their own
			b = append(b, 1, byte(k.Intn(18)))
		case 7:
			b = append(b, []byte{0, 0x4f, 0x51, 0x60, 0x50}[k.Intn(5)])
		default:
			b = append(b, []byte{0x76, 0xa9, 0x88, 0xac, 0x63, 0x68, 0x6a, 0x7c, 0xb0, 0xff, 0xba}[k.Intn(11)])
		}
	}
	if k.Intn(30) == 0 {
		b = append(b, bytes.Repeat([]byte{0x61}, []int{250, 252, 253, 254, 65535, 65536}[k.Intn(6)])...)
	}
	return b
}

func (k *K) anyLock() []byte {
	switch k.Intn(6) {
	case 0:
		return k.lockP2PK().script
	case 1:
		return k.lockMulti().script
	case 2, 3:
		return k.separatorScript()
	case 4:
		return append(append(k.separatorScript(), opCodeSep), k.lockP2PKH().script...)
	}
	return k.lockP2PKH().script
}

// cutOff adds a push that ends too early.
func (k *K) cutOff(script []byte) []byte {
	r := append([]byte(nil), script...)
	n := 2 + k.Intn(74)
	switch k.Intn(4) {
	case 0:
		r = append(r, 76, byte(n))
	case 1:
		r = append(r, 77, byte(n), byte(k.Intn(2)))
	case 2:
		r = append(r, 78, byte(n), byte(k.Intn(2)), 0, 0)
	default:
		r = append(r, byte(n))
	}
	return append(r, k.bytes(k.Intn(n))...)
}

func hashTypeName(t uint32) string {
	n := []string{"?", "all", "none", "single"}[t&3]
	if t&shAnyone != 0 {
		n += "+anyone"
	}
	if t&shForkID != 0 {
		n += "+fork"
	}
	return n
}

func digestCase(k *K) {
	tx := k.genMsgTx()
	k.bareOutputs(tx)
	before := encodeTx(tx)
	for step := 0; step < 3; step++ {
		index := k.Intn(len(tx.TxIn))
		past := k.Intn(12) == 0
		if past {
			index = len(tx.TxIn) + k.Intn(3)
		}
		script := k.anyLock()
		unreadable := !past && k.Intn(12) == 0
		if unreadable {
			script = k.cutOff(script)
		}
		value := k.value()
		if k.Intn(6) == 0 {
			value = k.Uint64()
		}
		ht := stdHashTypes[k.Intn(len(stdHashTypes))]
		if k.Intn(4) != 0 {
			ht |= shForkID
		}
		k.Tracef("input %d of %d, %d outputs, script %x, value %d, %s", index, len(tx.TxIn), len(tx.TxOut), script, value, hashTypeName(ht))
		var h *bitcoin.Hash32
		var p1, p2 []byte
		var e1, e2, e3 error
		k.Call("SignatureHash", func() {
			h, e1 = txb.SignatureHash(tx, index, script, value, txb.SigHashType(ht), &txb.SigHashCache{})
		})
		k.Call("SignatureHashPreimageBytes", func() {
			p1, e2 = txb.SignatureHashPreimageBytes(tx, index, script, value, txb.SigHashType(ht), &txb.SigHashCache{})
		})
		k.Call("SignaturePreimage", func() {
			p2, e3 = txb.SignaturePreimage(tx, index, script, value, txb.SigHashType(ht), &txb.SigHashCache{})
		})
		ki := k.key()
		var sig []byte
		var e4 error
		k.Call("InputSignature", func() {
			sig, e4 = txb.InputSignature(ki.key, tx, index, script, value, txb.SigHashType(ht), &txb.SigHashCache{})
		})
		if past {
			k.Check("past the end refused", e1 != nil && e2 != nil && e3 != nil && e4 != nil,
				"position %d of %d: %v, %v, %v, %v", index, len(tx.TxIn), e1, e2, e3, e4)
			var u1, u2 []byte
			var e5, e6 error
			k.Call("P2PKHUnlockingScript", func() {
				u1, e5 = txb.P2PKHUnlockingScript(ki.key, tx, index, script, value, txb.SigHashType(ht), &txb.SigHashCache{})
			})
			k.Call("P2PKUnlockingScript", func() {
				u2, e6 = txb.P2PKUnlockingScript(ki.key, tx, index, script, value, txb.SigHashType(ht), &txb.SigHashCache{})
			})
			k.Check("past the end refused", e5 != nil && e6 != nil && len(u1) == 0 && len(u2) == 0,
				"unlocking scripts %x, %x for position %d of %d: %v, %v", u1, u2, index, len(tx.TxIn), e5, e6)
			k.Distinct("past %d %s", bucket(len(tx.TxIn)), hashTypeName(ht))
			continue
		}
		if unreadable {
			k.Check("unreadable script refused", e1 != nil && e2 != nil && e3 != nil && e4 != nil,
				"script %x ends inside of a push: %v, %v, %v, %v", script, e1, e2, e3, e4)
			k.Distinct("unreadable %d %s", bucket(len(script)), hashTypeName(ht))
			continue
		}
		code, ok := afterSeparator(script)
		if !ok {
			panic("generated script is not complete")
		}
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			k.Fail("refused", "%v, %v, %v, %v for script %x", e1, e2, e3, e4, script)
		}
		want := refPreimage(tx, index, code, value, ht)
		k.Check("preimage", bytes.Equal(p1, want), "preimage is %x, should be %x", p1, want)
		k.Check("preimage (second form)", bytes.Equal(p2, want), "preimage is %x, should be %x", p2, want)
		k.Check("hash", bytes.Equal(h[:], dsha(want)), "hash is %x, should be %x", h[:], dsha(want))
		k.Check("hash type on signature", len(sig) > 0 && sig[len(sig)-1] == byte(ht), "signature %x for type %x", sig, ht)
		if ht&shForkID != 0 {
			k.Check("signature", checkSig(tx, index, script, value, sig, ki.pub), "signature %x does not verify", sig)
		}
		sep := "none"
		if len(code) != len(script) {
			sep = "separated"
		} else if bytes.IndexByte(script, opCodeSep) >= 0 {
			sep = "inside data"
		}
		k.Distinct("%s %s ins%d outs%d at%d code%d", hashTypeName(ht), sep, bucket(len(tx.TxIn)), bucket(len(tx.TxOut)),
			sign(int64(index-len(tx.TxOut))), varintLen(uint64(len(code))))
		k.Sample(map[string]interface{}{"type": hashTypeName(ht), "script": fmt.Sprintf("%x", script), "signed_part": len(code),
			"inputs": len(tx.TxIn), "outputs": len(tx.TxOut), "index": index, "hash": fmt.Sprintf("%x", h[:])})
	}
	k.Check("transaction untouched", bytes.Equal(before, encodeTx(tx)), "hashing changed the transaction")
}

func cacheCase(k *K) {
	tx := k.genMsgTx()
	k.bareOutputs(tx)
	cache := &txb.SigHashCache{}
	var uses []string
	for step := 2 + k.Intn(12); step > 0; step-- {
		if k.Intn(3) == 0 {
			what := ""
			outs := true
			switch k.Intn(8) {
			case 0:
				if len(tx.TxOut) == 0 {
					continue
				}
				tx.TxOut[k.Intn(len(tx.TxOut))].Value++
				what = "output value"
			case 1:
				tx.TxOut = append(tx.TxOut, &wire.TxOut{LockingScript: k.lockP2PKH().script, Value: k.value()})
				what = "output added"
			case 2:
				if len(tx.TxOut) == 0 {
					continue
				}
				i := k.Intn(len(tx.TxOut))
				tx.TxOut = append(append([]*wire.TxOut(nil), tx.TxOut[:i]...), tx.TxOut[i+1:]...)
				what = "output removed"
			case 3:
				if len(tx.TxOut) == 0 {
					continue
				}
				tx.TxOut[k.Intn(len(tx.TxOut))].LockingScript = k.lockOutput().script
				what = "output script"
			case 4:
				tx.TxIn[k.Intn(len(tx.TxIn))].Sequence++
				what, outs = "sequence", false
			case 5:
				tx.TxIn[k.Intn(len(tx.TxIn))].PreviousOutPoint.Index++
				what, outs = "outpoint", false
			case 6:
				tx.TxIn = append(tx.TxIn, &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: k.hash()}, Sequence: k.Uint32()})
				what, outs = "input added", false
			case 7:
				tx.LockTime++
				tx.Version--
				what, outs = "version and lock time", false
			}
			if outs && k.Intn(3) != 0 {
				cache.ClearOutputs()
				what += ", outputs cleared"
			} else {
				cache.Clear()
				what += ", cleared"
			}
			k.Tracef("changed %s", what)
			uses = append(uses, what)
			continue
		}
		index := k.Intn(len(tx.TxIn))
		script := k.anyLock()
		value := k.value()
		ht := stdHashTypes[k.Intn(len(stdHashTypes))] | shForkID
		k.Tracef("input %d %s", index, hashTypeName(ht))
		var a, b []byte
		var e1, e2 error
		which := k.Intn(3)
		get := func(c *txb.SigHashCache) (r []byte, err error) {
			switch which {
			case 0:
				h, err := txb.SignatureHash(tx, index, script, value, txb.SigHashType(ht), c)
				if err != nil {
					return nil, err
				}
				return h[:], nil
			case 1:
				return txb.SignatureHashPreimageBytes(tx, index, script, value, txb.SigHashType(ht), c)
			}
			return txb.SignaturePreimage(tx, index, script, value, txb.SigHashType(ht), c)
		}
		k.Call("with shared cache", func() { a, e1 = get(cache) })
		k.Call("from scratch", func() { b, e2 = get(&txb.SigHashCache{}) })
		if e1 != nil || e2 != nil {
			k.Fail("refused", "%v, %v", e1, e2)
		}
		last := "fresh"
		if len(uses) > 0 {
			last = uses[len(uses)-1]
		}
		k.Check("same with and without cache", bytes.Equal(a, b), "input %d %s after %s: %x with the cache, %x without", index, hashTypeName(ht), last, a, b)
		k.Distinct("%s after %s, outs%d", hashTypeName(ht), last, sign(int64(index-len(tx.TxOut))))
		uses = append(uses, hashTypeName(ht))
		if k.Intn(6) == 0 {
			// the caller may do what it likes with the result
			for i := range a {
				a[i] ^= 0xff
			}
		}
	}
	k.Sample(map[string]interface{}{"inputs": len(tx.TxIn), "outputs": len(tx.TxOut), "steps": uses})
}

// handBuiltCase puts unlocking scripts together from single signatures.
func handBuiltCase(k *K) {
	tx := k.genMsgTx()
	index := k.Intn(len(tx.TxIn))
	value := k.value()
	ht := func() txb.SigHashType {
		return txb.SigHashType(stdHashTypes[k.Intn(len(stdHashTypes))] | shForkID)
	}
	set := func(s []byte, err error) {
		if err != nil {
			k.Fail("refused", "%v", err)
		}
		tx.TxIn[index].UnlockingScript = s
	}
	var cache txb.SigHashCache
	l := k.lockP2PKH()
	good := k.Intn(3) != 0
	what := ""
	switch k.Intn(5) {
	case 0:
		key := l.keys[0].key
		if !good {
			key = poolKey((l.keys[0].n + 1 + k.Intn(poolSize-1)) % poolSize).key
		}
		t := ht()
		what = "p2pkh " + hashTypeName(uint32(t))
		k.Tracef("%s input %d of %d right key %v", what, index, len(tx.TxIn), good)
		k.Call("P2PKHUnlockingScript", func() { set(txb.P2PKHUnlockingScript(key, tx, index, l.script, value, t, &cache)) })
	case 1:
		l = k.lockP2PK()
		key := l.keys[0].key
		if !good {
			key = poolKey((l.keys[0].n + 1 + k.Intn(poolSize-1)) % poolSize).key
		}
		t := ht()
		what = "p2pk " + hashTypeName(uint32(t))
		k.Tracef("%s input %d of %d right key %v", what, index, len(tx.TxIn), good)
		k.Call("P2PKUnlockingScript", func() { set(txb.P2PKUnlockingScript(key, tx, index, l.script, value, t, &cache)) })
	default:
		l = k.lockMulti()
		n := len(l.keys)
		present := k.Perm(n)[:k.Intn(n+1)]
		if k.Intn(3) == 0 {
			present = k.Perm(n)[:l.required]
		}
		pubs, sigs := make([][]byte, n), make([][]byte, n)
		types := map[string]bool{}
		for i, ki := range l.keys {
			pubs[i] = ki.pub
		}
		if k.Intn(2) == 0 {
			// those who do not sign are given as empty, not as absent
			for i := range sigs {
				sigs[i] = []byte{}
			}
		}
		wrong := -1
		if len(present) > 0 && k.Intn(6) == 0 {
			wrong = present[0]
		}
		k.Tracef("multi %d of %d, present %v, wrong %d", l.required, n, present, wrong)
		for _, p := range present {
			t := ht()
			types[hashTypeName(uint32(t))] = true
			key := l.keys[p].key
			if p == wrong {
				key = poolKey((l.keys[p].n + 1) % poolSize).key
			}
			var err error
			k.Call("InputSignature", func() { sigs[p], err = txb.InputSignature(key, tx, index, l.script, value, t, &cache) })
			if err != nil {
				k.Fail("refused", "%v", err)
			}
		}
		if k.Intn(4) == 0 {
			// numbers that do not match
			p2, s2 := pubs, sigs
			if k.Intn(2) == 0 {
				p2 = append(append([][]byte(nil), pubs...), poolKey(0).pub)
			} else {
				s2 = append(append([][]byte(nil), sigs...), nil)
			}
			if n > 1 && k.Intn(2) == 0 {
				p2, s2 = pubs[:n-1], sigs
			}
			var err error
			k.Call("P2MultiPKHUnlockingScript", func() { _, err = txb.P2MultiPKHUnlockingScript(uint16(l.required), p2, s2) })
			k.Check("mismatch refused", err != nil, "%d keys with %d signatures accepted", len(p2), len(s2))
		}
		k.Call("P2MultiPKHUnlockingScript", func() { set(txb.P2MultiPKHUnlockingScript(uint16(l.required), pubs, sigs)) })
		good = len(present) >= l.required && wrong < 0
		what = fmt.Sprintf("multi %d of %d present %d wrong %v types %d", l.required, n, len(present), wrong >= 0, len(types))
	}
	err := unlocks(tx, index, l.script, value)
	if good {
		k.Check("unlocks", err == nil, "%s: %v", what, err)
	} else {
		k.Check("does not unlock", err != nil, "%s unlocks", what)
	}
	if k.Intn(3) == 0 && len(tx.TxIn) == 1 && len(tx.TxOut) > 0 {
		ierr := interpreterAccepts(tx, []*wire.TxOut{{LockingScript: l.script, Value: value}})
		k.Check("interpreter agrees", (ierr == nil) == good, "%s: should unlock %v, interpreter: %v", what, good, ierr)
	}
	k.Distinct("%s good%v", what, good)
	k.Sample(map[string]interface{}{"case": what, "should_unlock": good, "verdict": fmt.Sprint(err)})
}

func init() {
	register("C16", "Cases are drawn from the seed: transactions with any version, lock time, sequences, 1-5 or ~252 inputs, 0-5 or ~252 outputs; scripts of every type and random ones with code separators inside and outside of push data, non-minimal pushes and lengths at each prefix boundary; every standard hash type with and without the fork bit; positions inside and past the end; scripts that end inside of a push. Distinct counts combinations of type, separator use, size classes and position relative to the outputs.", func(c *C) {
		c.Require("preimage", 5000)
		c.Require("signature", 3000)
		c.Require("past the end refused", 500)
		c.Require("unreadable script refused", 500)
		c.Cases("digest", c.Pick(15000, 150000), digestCase)
	})
	register("C17", "Histories of 2-13 steps drawn from the seed over one shared cache: hashes of random inputs with random types, and changes of the transaction each followed by the matching clear; each hash is compared with one computed with a new cache. Distinct counts combinations of type, previous step and position relative to the outputs.", func(c *C) {
		c.Require("same with and without cache", 20000)
		c.Cases("cache", c.Pick(25000, 300000), cacheCase)
	})
	register("C30", "Cases are drawn from the seed: transactions of any shape, every standard type per signature, thresholds and signer sets of 1-23 signers with too few, exactly enough, too many and wrong signers, numbers of keys and signatures that do not match. Distinct counts combinations of script type, threshold, signers present and hash type.", func(c *C) {
		c.Require("unlocks", 2000)
		c.Require("does not unlock", 1000)
		c.Require("mismatch refused", 500)
		c.Require("interpreter agrees", 200)
		c.Cases("hand built", c.Pick(12000, 120000), handBuiltCase)
	})
}
