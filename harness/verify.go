package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"

	"github.com/btcsuite/btcd/btcec"
)

// Own implementation of the replay protected signature digest and of the supported script types.

const (
	shAll     = 1
	shNone    = 2
	shSingle  = 3
	shForkID  = 0x40
	shAnyone  = 0x80
	opCodeSep = 0xab
)

var stdHashTypes = []uint32{shAll, shNone, shSingle, shAll | shAnyone, shNone | shAnyone, shSingle | shAnyone}

// afterSeparator returns the bytes after the last OP_CODESEPARATOR that is not inside push data.
// ok is false when the script is not a sequence of complete operations.
func afterSeparator(s []byte) (rest []byte, ok bool) {
	start := 0
	for p := 0; p < len(s); {
		op := s[p]
		p++
		n := 0
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op == 76:
			if p+1 > len(s) {
				return nil, false
			}
			n = int(s[p])
			p++
		case op == 77:
			if p+2 > len(s) {
				return nil, false
			}
			n = int(binary.LittleEndian.Uint16(s[p:]))
			p += 2
		case op == 78:
			if p+4 > len(s) {
				return nil, false
			}
			n = int(binary.LittleEndian.Uint32(s[p:]))
			p += 4
		}
		if p+n > len(s) {
			return nil, false
		}
		p += n
		if op == opCodeSep {
			start = p
		}
	}
	return s[start:], true
}

// refPreimage is the digest preimage for an input; code is the script part that is signed.
func refPreimage(tx *wire.MsgTx, index int, code []byte, value uint64, hashType uint32) []byte {
	b := &bytes.Buffer{}
	zero := make([]byte, 32)
	binary.Write(b, binary.LittleEndian, tx.Version)
	base := hashType & 0x1f
	if hashType&shAnyone == 0 {
		p := &bytes.Buffer{}
		for _, in := range tx.TxIn {
			p.Write(in.PreviousOutPoint.Hash[:])
			binary.Write(p, binary.LittleEndian, in.PreviousOutPoint.Index)
		}
		b.Write(dsha(p.Bytes()))
	} else {
		b.Write(zero)
	}
	if hashType&shAnyone == 0 && base != shNone && base != shSingle {
		p := &bytes.Buffer{}
		for _, in := range tx.TxIn {
			binary.Write(p, binary.LittleEndian, in.Sequence)
		}
		b.Write(dsha(p.Bytes()))
	} else {
		b.Write(zero)
	}
	in := tx.TxIn[index]
	b.Write(in.PreviousOutPoint.Hash[:])
	binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
	putVarint(b, uint64(len(code)))
	b.Write(code)
	binary.Write(b, binary.LittleEndian, value)
	binary.Write(b, binary.LittleEndian, in.Sequence)
	switch {
	case base != shNone && base != shSingle:
		p := &bytes.Buffer{}
		for _, o := range tx.TxOut {
			encodeOut(p, o)
		}
		b.Write(dsha(p.Bytes()))
	case base == shSingle && index < len(tx.TxOut):
		p := &bytes.Buffer{}
		encodeOut(p, tx.TxOut[index])
		b.Write(dsha(p.Bytes()))
	default:
		b.Write(zero)
	}
	binary.Write(b, binary.LittleEndian, tx.LockTime)
	binary.Write(b, binary.LittleEndian, hashType|shForkID)
	return b.Bytes()
}

// checkSig verifies a signature with its trailing hash type. Only replay protected types count.
func checkSig(tx *wire.MsgTx, index int, script []byte, value uint64, sig, pub []byte) bool {
	if len(sig) < 9 {
		return false
	}
	ht := uint32(sig[len(sig)-1])
	if base := ht &^ (shForkID | shAnyone); ht&shForkID == 0 || base < 1 || base > 3 {
		return false
	}
	code, ok := afterSeparator(script)
	if !ok {
		return false
	}
	s, err := btcec.ParseDERSignature(sig[:len(sig)-1], btcec.S256())
	if err != nil {
		return false
	}
	p, err := btcec.ParsePubKey(pub, btcec.S256())
	if err != nil {
		return false
	}
	return s.Verify(dsha(refPreimage(tx, index, code, value, ht)), p)
}

// pushes splits an unlocking script into the items it pushes; ok is false if it does anything else.
func pushes(s []byte) (items [][]byte, ok bool) {
	for p := 0; p < len(s); {
		op := s[p]
		p++
		n := 0
		switch {
		case op == 0:
			items = append(items, nil)
			continue
		case op >= 1 && op <= 75:
			n = int(op)
		case op == 76 && p < len(s):
			n = int(s[p])
			p++
		case op == 77 && p+1 < len(s):
			n = int(binary.LittleEndian.Uint16(s[p:]))
			p += 2
		case op >= 0x51 && op <= 0x60:
			items = append(items, []byte{op - 0x50})
			continue
		default:
			return nil, false
		}
		if p+n > len(s) {
			return nil, false
		}
		items = append(items, s[p:p+n])
		p += n
	}
	return items, true
}

func truthy(b []byte) bool {
	for i, c := range b {
		if c != 0 && !(i == len(b)-1 && c == 0x80) {
			return true
		}
	}
	return false
}

// unlocks decides whether the unlocking script of an input satisfies the locking script it spends.
func unlocks(tx *wire.MsgTx, index int, lockScript []byte, value uint64) error {
	stack, ok := pushes(tx.TxIn[index].UnlockingScript)
	if !ok {
		return fmt.Errorf("unlocking script is not a list of pushes")
	}
	pop := func() []byte {
		if len(stack) == 0 {
			ok = false
			return nil
		}
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		return v
	}
	c := classify(lockScript)
	switch c.kind {
	case "p2pkh":
		pub, sig := pop(), pop()
		if !ok || len(stack) != 0 {
			return fmt.Errorf("wrong number of items")
		}
		if !bytes.Equal(hash160(pub), c.hashes[0]) {
			return fmt.Errorf("wrong public key")
		}
		if !checkSig(tx, index, lockScript, value, sig, pub) {
			return fmt.Errorf("signature does not verify")
		}
	case "p2pk":
		sig := pop()
		if !ok || len(stack) != 0 {
			return fmt.Errorf("wrong number of items")
		}
		if !checkSig(tx, index, lockScript, value, sig, c.hashes[0]) {
			return fmt.Errorf("signature does not verify")
		}
	case "multi":
		valid := 0
		for i, h := range c.hashes {
			if !truthy(pop()) {
				continue
			}
			pub, sig := pop(), pop()
			if !ok {
				return fmt.Errorf("too few items at signer %d", i)
			}
			if !bytes.Equal(hash160(pub), h) {
				return fmt.Errorf("wrong public key for signer %d", i)
			}
			if !checkSig(tx, index, lockScript, value, sig, pub) {
				return fmt.Errorf("signature %d does not verify", i)
			}
			valid++
		}
		if !ok || len(stack) != 0 {
			return fmt.Errorf("wrong number of items")
		}
		if valid < c.required {
			return fmt.Errorf("%d of %d required signatures", valid, c.required)
		}
	default:
		return fmt.Errorf("no verifier for %s", c.kind)
	}
	return nil
}

// signedAll is unlocks that also wants every signature to be for the whole transaction, so that nobody
// can change an input or output of it.
func signedAll(tx *wire.MsgTx, index int, lockScript []byte, value uint64) error {
	if err := unlocks(tx, index, lockScript, value); err != nil {
		return err
	}
	items, _ := pushes(tx.TxIn[index].UnlockingScript)
	for _, item := range items {
		if len(item) >= 9 && item[0] == 0x30 && item[len(item)-1] != 1|shForkID {
			return fmt.Errorf("signature of type %x is not for the whole transaction", item[len(item)-1])
		}
	}
	return nil
}

// spent lets the interpreter of the module cache judge a transaction.
type spent struct {
	tx   *wire.MsgTx
	outs []*wire.TxOut
}

func (s *spent) GetMsgTx() *wire.MsgTx { return s.tx }
func (s *spent) InputOutput(i int) (*wire.TxOut, error) {
	return s.outs[i], nil
}

func interpreterAccepts(tx *wire.MsgTx, outs []*wire.TxOut) error {
	return bitcoin_interpreter.VerifyTx(context.Background(), &spent{tx, outs})
}

// allUnlocked checks every input with the own verifier and, when asked, with the interpreter.
func (s *snap) allUnlocked(tx *wire.MsgTx, second bool) error {
	outs := make([]*wire.TxOut, len(s.ins))
	for i := range s.ins {
		if err := signedAll(tx, i, []byte(s.ins[i].lock), s.ins[i].value); err != nil {
			return fmt.Errorf("input %d: %s", i, err)
		}
		outs[i] = &wire.TxOut{LockingScript: bitcoin.Script(s.ins[i].lock), Value: s.ins[i].value}
	}
	if second && len(outs) > 0 {
		if err := interpreterAccepts(tx, outs); err != nil {
			return fmt.Errorf("interpreter: %s", err)
		}
	}
	return nil
}
