package main

import (
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// Whole histories from an empty builder to a signed transaction, with detours.

// detour is a step that is not an edit.
func (h *history) detour(tx *txb.TxBuilder) (*txb.TxBuilder, string) {
	k := h.k
	switch k.Intn(13) {
	case 0:
		c := tx.Copy()
		return &c, "Copy"
	case 1:
		k.Call("CalculateFee", func() { tx.CalculateFee() })
		return tx, "CalculateFee"
	case 2:
		a := k.Int63n(4000) - 2000
		for i, o := range tx.Outputs {
			if o.IsRemainder && k.Intn(2) == 0 {
				a = int64(tx.MsgTx.TxOut[i].Value) - k.Int63n(100) // nearly all of the change
				break
			}
		}
		k.Call("AdjustFee", func() { tx.AdjustFee(a) })
		return tx, "AdjustFee"
	case 3:
		tx.FeeRate = k.rate()
		return tx, "rate"
	case 4:
		if n := len(tx.MsgTx.TxIn); n > 0 {
			tx.MsgTx.TxIn[k.Intn(n)].Sequence = k.Uint32()
		}
		tx.MsgTx.LockTime = k.Uint32()
		return tx, "lock time"
	case 5:
		k.Call("RandomizeOutputs", func() { tx.RandomizeOutputs() })
		return tx, "RandomizeOutputs"
	case 6:
		n := k.Intn(len(tx.Outputs) + 1)
		k.Call("RandomizeOutputsAfter", func() { tx.RandomizeOutputsAfter(n) })
		return tx, "RandomizeOutputsAfter"
	case 7, 8:
		s := k.Snap(tx)
		need := sub0(s.outValue()+s.estFee(), s.inValue())
		var utxos []bitcoin.UTXO
		for n := 1 + k.Intn(3); n > 0; n-- {
			utxos = append(utxos, h.worth(1+need/2+uint64(k.Intn(200000))))
		}
		if k.Intn(2) == 0 {
			addrs, _ := k.changeAddresses(1+k.Intn(4), nil)
			k.Call("AddFundingBreakChange", func() { tx.AddFundingBreakChange(utxos, k.breakValue(), addrs) })
			return tx, "AddFundingBreakChange"
		}
		if len(tx.ChangeScript) == 0 {
			tx.ChangeScript = k.lockSpendable().script
		}
		k.Call("AddFunding", func() { tx.AddFunding(utxos) })
		return tx, "AddFunding"
	case 9:
		// stored and read back by someone who knows the spent outputs
		s := k.Snap(tx)
		var utxos []bitcoin.UTXO
		for _, i := range k.Perm(len(s.ins)) {
			in := s.ins[i]
			utxos = append(utxos, bitcoin.UTXO{Hash: in.hash, Index: in.index, Value: in.value, LockingScript: bitcoin.Script(in.lock), KeyID: in.keyID})
		}
		m := tx.MsgTx.Copy()
		var c *txb.TxBuilder
		var err error
		k.Call("NewTxBuilderFromWireUTXOs", func() { c, err = txb.NewTxBuilderFromWireUTXOs(tx.FeeRate, tx.DustFeeRate, &m, utxos) })
		if err != nil {
			return tx, "not read back"
		}
		for i := range s.outs {
			c.Outputs[i].IsRemainder = s.outs[i].remainder
			c.Outputs[i].IsDust = s.outs[i].dust
			c.Outputs[i].KeyID = s.outs[i].keyID
		}
		c.ChangeScript, c.ChangeKeyID = tx.ChangeScript, tx.ChangeKeyID
		return c, "read back"
	case 10:
		keys := k.withStrangers(k.neededKeys(k.Snap(tx)))
		if len(keys) > 1 {
			keys = keys[:k.Intn(len(keys))]
		}
		k.Call("SignOnly", func() { tx.SignOnly(keys) })
		return tx, "SignOnly"
	case 11:
		if n := len(tx.Inputs); n > 0 {
			i := k.Intn(n)
			l := lockOfScript(tx.Inputs[i].LockingScript)
			if l.kind == "p2pkh" {
				k.Call("SignP2PKHInput", func() { tx.SignP2PKHInput(i, l.keys[0].key, &txb.SigHashCache{}) })
			}
		}
		return tx, "SignP2PKHInput"
	default:
		tx.SendMax = !tx.SendMax
		return tx, "send max"
	}
}

func historyCase(k *K) {
	h := k.newHistory(k.Intn(3) == 0)
	h.lockIn = k.lockSpendable
	h.exist = map[wire.OutPoint]bitcoin.UTXO{}
	tx := k.startBuilder(h)
	if k.Intn(2) == 0 {
		tx.ChangeScript = k.lockSpendable().script
	}
	var last [3]string
	rounds := 1 + k.Intn(3)
	for r := 0; r < rounds; r++ {
		for steps := 3 + k.Intn(12); steps > 0; steps-- {
			name := ""
			if k.Intn(3) == 0 {
				before := k.Snap(tx)
				tx, name = h.detour(tx)
				k.Tracef("%s", name)
				if name != "RandomizeOutputs" && name != "RandomizeOutputsAfter" && name != "AddFundingBreakChange" {
					after := k.Snap(tx)
					k.Check("payments kept on the way", keptPayments(before, after), "outputs that are not the remainder changed by %s: %v -> %v", name, before.outs, after.outs)
				}
			} else {
				o := h.edit(k.Snap(tx))
				name = o.name
				if k.do(o, tx) != nil {
					name += " refused"
				}
			}
			last[0], last[1], last[2] = last[1], last[2], name
		}
		// mostly with enough to spend
		s := k.Snap(tx)
		if need := s.outValue() + s.estFee(); need > s.inValue() && k.Intn(5) != 0 {
			u := h.worth(need - s.inValue() + ceilFee(400, tx.FeeRate) + uint64(k.Intn(50000)))
			k.Call("AddInputUTXO", func() { tx.AddInputUTXO(u) })
		}
		pre := k.traceState("before signing", tx)
		if len(pre.ins) == 0 {
			k.Skip("nothing to sign")
			continue
		}
		keys := k.withStrangers(k.neededKeys(pre))
		var err error
		k.Call("Sign", func() { _, err = tx.Sign(keys) })
		post := k.traceState("after signing", tx)
		cause := errors.Cause(err)
		k.Tracef("  result: %v", err)
		if err != nil {
			k.Check("known reason", cause == txb.ErrInsufficientValue || cause == txb.ErrChangeAddressNeeded, "signing with all keys failed with: %v", err)
			k.Skip("not signed")
			continue
		}
		second := k.Intn(6) == 0
		verr := post.allUnlocked(tx.MsgTx, second)
		k.Check("every input unlocked", verr == nil, "signing succeeded but %v", verr)
		if second {
			k.Event("interpreter agreed")
		}
		size := len(encodeTx(tx.MsgTx))
		k.Check("pays the rate", post.fee() >= int64(ceilFee(size, post.feeRate)), "%d bytes pay %d, below %d", size, post.fee(), ceilFee(size, post.feeRate))
		spent := map[string]bool{}
		for i := range post.ins {
			id := fmt.Sprintf("%x:%d", post.ins[i].hash, post.ins[i].index)
			u, ok := h.exist[wire.OutPoint{Hash: post.ins[i].hash, Index: post.ins[i].index}]
			k.Check("spends what exists", ok && string(u.LockingScript) == post.ins[i].lock && u.Value == post.ins[i].value,
				"input %d is signed for %s, the output it spends is worth %d with script %x", i, post.ins[i], u.Value, []byte(u.LockingScript))
			k.Check("spends each output once", !spent[id], "%s is spent twice", id)
			spent[id] = true
		}
		k.Check("payments kept", keptPayments(pre, post), "outputs that are not the remainder changed: %v -> %v", pre.outs, post.outs)
		var b []byte
		k.Call("Serialize", func() { b, err = tx.Serialize() })
		k.Check("encodes", err == nil && string(b) == string(encodeTx(tx.MsgTx)), "the signed transaction does not serialize: %v", err)
		k.Distinct("%s, %s, %s ins%d outs%d%+d", last[0], last[1], last[2], bucket(len(post.ins)), bucket(len(pre.outs)), len(post.outs)-len(pre.outs))
		k.Sample(map[string]interface{}{"history": append([]string(nil), k.trace...), "signed_size": size, "fee": post.fee()})
	}
}

// keptPayments tells whether the outputs that are not remainders are the same in the same order.
func keptPayments(a, b *snap) bool {
	var p, q []snapOut
	for _, o := range a.outs {
		if !o.remainder {
			p = append(p, o)
		}
	}
	for _, o := range b.outs {
		if !o.remainder {
			q = append(q, o)
		}
	}
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func init() {
	register("C34", "Histories of 3-45 calls from an empty builder, drawn from the seed: every edit, funding with whole or broken-up change, fee calculation and adjustment, randomizing, copying, storing and reading back, changes of rate, lock time and sequences, and earlier partial or full signings, signed 1-3 times along the way with all keys. Every successful signing is judged. Distinct counts combinations of the last three calls with the numbers of inputs and outputs.", func(c *C) {
		c.Require("every input unlocked", 3000)
		c.Require("pays the rate", 3000)
		c.Require("payments kept", 3000)
		c.Require("payments kept on the way", 3000)
		c.Require("spends what exists", 3000)
		c.Cases("histories", c.Pick(6000, 60000), historyCase)
	})
}
