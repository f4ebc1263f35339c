package main

import (
	"fmt"

	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// Which output values are accepted.

// lockMinimum is a script to pay to, with many that look like data or nearly so.
func (k *K) lockMinimum() lock {
	switch k.Intn(12) {
	case 0:
		return lock{script: append([]byte{0, 0, 0x6a}, k.bytes(k.Intn(30))...), kind: "almost data"}
	case 1:
		return lock{script: append([]byte{0x51, 0x6a}, k.bytes(k.Intn(30))...), kind: "almost data"}
	case 2:
		return lock{script: []byte{0x6a}, kind: "data"}
	case 3:
		return lock{script: []byte{0, 0x6a}, kind: "data"}
	case 4:
		return lock{script: []byte{0}, kind: "almost data"}
	case 5:
		return k.lockData()
	case 6:
		return k.lockUnknown()
	}
	return k.lockOutput()
}

func minimumCase(k *K) {
	st := k.genState(stateOpts{remainders: 1})
	tx := st.tx
	if k.Intn(4) == 0 {
		tx.SendMax = true
	}
	for step := 1 + k.Intn(5); step > 0; step-- {
		pre := k.Snap(tx)
		if k.Intn(3) == 0 && len(pre.outs) > 0 {
			k.minimumOfExisting(tx, pre)
			continue
		}
		l := k.lockMinimum()
		fee := ceilFee(outSize(l.script), tx.FeeRate)
		lo, hi := dustRange(outSize(l.script), tx.DustFeeRate)
		var value uint64
		switch k.Intn(8) {
		case 0:
			value = 0
		case 1:
			value = uint64(k.Int63n(int64(fee) + 2))
		case 2:
			value = sub0(lo+2, uint64(k.Intn(5)))
		case 3:
			value = k.value()
		default:
			value = sub0(fee+2, uint64(k.Intn(5)))
		}
		remainder, dust := k.Intn(4) == 0, k.Intn(5) == 0
		at := len(pre.outs)
		var err error
		op := ""
		kind := k.Intn(6)
		ra, isAddress := k.address(l)
		if !isAddress && (kind == 2 || kind == 3 || kind == 4) {
			kind = k.Intn(2)
		}
		max := tx.SendMax
		switch kind {
		case 0:
			op = "AddOutput"
			k.Call(op, func() { err = tx.AddOutput(l.script, value, remainder, dust) })
		case 1:
			op = "InsertOutput"
			at = k.Intn(len(pre.outs) + 1)
			k.Call(op, func() { err = tx.InsertOutput(at, l.script, value, remainder, dust) })
		case 2:
			op, dust = "AddPaymentOutput", false
			k.Call(op, func() { err = tx.AddPaymentOutput(ra, value, remainder) })
		case 3:
			op, dust = "AddDustOutput", true
			k.Call(op, func() { err = tx.AddDustOutput(ra, remainder) })
		case 4:
			op, dust, remainder, value, max = "AddMaxOutput", false, true, 0, true
			k.Call(op, func() { err = tx.AddMaxOutput(ra) })
		default:
			op, dust, remainder, value, max = "AddMaxScriptOutput", false, true, 0, true
			k.Call(op, func() { err = tx.AddMaxScriptOutput(l.script) })
		}
		k.Tracef("%s(%s %d bytes, %d, %v, %v) fee rate %g dust rate %g send max %v: %v", op, l.kind, len(l.script), value, remainder, dust,
			pre.feeRate, pre.dustRate, max, err)
		what := "ordinary"
		accept := value >= fee
		switch {
		case dust:
			what, accept = "dust", true
		case isData(string(l.script)):
			what, accept = "data", true
		case max && remainder:
			what, accept = "maximum", true
		}
		if !accept {
			k.Check("too little refused", err != nil, "an output worth %d was accepted although including it costs %d", value, fee)
			k.Check("reason given", errors.Cause(err) == txb.ErrBelowDustValue, "an output worth %d was refused with: %v", value, err)
		} else {
			k.Check(what+" output accepted", err == nil, "%s output worth %d, costing %d to include, was refused: %v", what, value, fee, err)
			post := k.Snap(tx)
			if len(post.outs) != len(pre.outs)+1 {
				k.Fail("one output more", "%d outputs became %d", len(pre.outs), len(post.outs))
			}
			got := post.outs[at].value
			if dust {
				k.Check("dust output worth the dust limit", got >= lo && got <= hi, "the dust output is worth %d, the dust limit is %d", got, lo)
			} else {
				k.Check("output worth what was given", got == value, "the output is worth %d, should be %d", got, value)
			}
		}
		near := "far"
		if d := int64(value) - int64(fee); d >= -2 && d <= 2 {
			near = fmt.Sprintf("%+d", d)
		}
		k.Distinct("%s %s %s fee%s rem%v max%v rate%s data%v", op, what, l.kind, near, remainder, max, rateClass(pre.feeRate), isData(string(l.script)))
		k.Sample(map[string]interface{}{"call": op, "script": l.kind, "script_bytes": len(l.script), "value": value, "fee": fee, "fee_rate": fmt.Sprint(pre.feeRate), "result": answer(err)})
	}
}

// minimumOfExisting changes the value of an output to around the dust limit.
func (k *K) minimumOfExisting(tx *txb.TxBuilder, pre *snap) {
	i := k.Intn(len(pre.outs))
	o := pre.outs[i]
	lo, hi := dustRange(outSize([]byte(o.script)), tx.DustFeeRate)
	want := sub0(lo+2, uint64(k.Intn(5)))
	if k.Intn(2) == 0 {
		if k.Intn(3) != 0 {
			tx.Outputs[i].IsDust = true
		}
		dust := tx.Outputs[i].IsDust
		var err error
		k.Call("AddValueToOutput", func() { err = tx.AddValueToOutput(uint32(i), want) })
		k.Tracef("AddValueToOutput(%d, %d) of %d, dust %v, dust limit %d: %v", i, want, o.value, dust, lo, err)
		got := tx.MsgTx.TxOut[i].Value
		switch {
		case !dust:
			k.Check("added", err == nil && got == o.value+want, "adding %d to %d gave %d, %v", want, o.value, got, err)
		case want < lo:
			k.Check("dust kept above the limit", errors.Cause(err) == txb.ErrBelowDustValue, "replacing dust by %d, below the limit %d, gave: %v", want, lo, err)
		case want >= hi:
			k.Check("dust replaced", err == nil && got == want, "replacing dust by %d, the limit being %d, gave %d, %v", want, lo, got, err)
		}
		k.Distinct("AddValueToOutput dust%v %+d", dust, int64(want)-int64(lo))
		return
	}
	if o.value <= want {
		k.Skip("worth less than the limit")
		return
	}
	var err error
	k.Call("SubtractValueFromOutput", func() { err = tx.SubtractValueFromOutput(uint32(i), o.value-want) })
	k.Tracef("SubtractValueFromOutput(%d, %d) of %d, dust limit %d: %v", i, o.value-want, o.value, lo, err)
	got := tx.MsgTx.TxOut[i].Value
	switch {
	case want < lo:
		k.Check("subtraction stops at the limit", err != nil && got == o.value, "lowering %d to %d, below the limit %d, was accepted", o.value, want, lo)
	case want >= hi:
		k.Check("subtracted", err == nil && got == want, "lowering %d to %d, the limit being %d, gave %d, %v", o.value, want, lo, got, err)
	}
	k.Distinct("SubtractValueFromOutput %+d", int64(want)-int64(lo))
}

func init() {
	register("C33", "Builders with any rates and markings get 1-5 outputs through every operation that adds one, of scripts of every type and such that look like data but are not, with values around the fee for including them, around the dust limit, zero and anything; existing outputs are raised and lowered to around the dust limit. Acceptance, reason and resulting value are judged for every call. Distinct counts combinations of call, script kind, marking, distance to the threshold and rate.", func(c *C) {
		c.Require("too little refused", 5000)
		c.Require("ordinary output accepted", 5000)
		c.Require("data output accepted", 3000)
		c.Require("maximum output accepted", 2000)
		c.Require("dust output worth the dust limit", 2000)
		c.Require("dust kept above the limit", 500)
		c.Require("dust replaced", 500)
		c.Require("subtraction stops at the limit", 500)
		c.Require("subtracted", 500)
		c.Cases("minimum", c.Pick(40000, 400000), minimumCase)
	})
}
