package main

import (
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// lockUnsignable is a script that signing does not support.
func (k *K) lockUnsignable() lock {
	switch k.Intn(8) {
	case 0:
		return k.lockAgent()
	case 1:
		return k.lockData()
	case 2:
		return lock{kind: "none"}
	case 3:
		s := k.lockP2PKH().script
		return lock{script: s[:len(s)-1], kind: "cut"}
	case 4:
		s := k.lockP2PK().script
		return lock{script: append(append(bitcoin.Script(nil), s...), 0x61), kind: "extended"}
	}
	return k.lockUnknown()
}

func unsupported(err error) bool {
	c := errors.Cause(err)
	return c == txb.ErrWrongScriptTemplate || c == bitcoin.ErrWrongScriptTemplate || c == bitcoin.ErrUnknownScriptTemplate
}

// refuseSigningCase signs transactions with inputs that can't be signed.
func refuseSigningCase(k *K) {
	sg := k.genSignable()
	tx := sg.tx
	if len(tx.Inputs) > 50 {
		k.Skip("many inputs")
		return
	}
	need := k.neededKeys(takeSnap(tx))
	if k.Intn(3) == 0 {
		need = need[:k.Intn(len(need)+1)]
	}
	full := k.Intn(2) == 0
	odd := 0
	for n := 1 + k.Intn(2); n > 0; n-- {
		l := k.lockUnsignable()
		u := k.utxo(l, k.value())
		at := k.Intn(len(tx.Inputs) + 1)
		if err := tx.InsertInput(at, u); err != nil {
			k.Fail("setup", "inserting a fresh input was refused: %s", err)
		}
		if k.Intn(4) == 0 {
			tx.MsgTx.TxIn[at].UnlockingScript = k.bytes(1 + k.Intn(100)) // signed by somebody else
		}
		k.Tracef("input %d can't be signed: %s", at, l.kind)
	}
	if k.Intn(3) != 0 {
		tx.Inputs[0].Value += uint64(k.Intn(10000000)) // mostly well funded
	}
	pre := k.traceState("before signing", tx)
	can := make([]bool, len(pre.ins))
	for i := range pre.ins {
		switch classify([]byte(pre.ins[i].lock)).kind {
		case "p2pkh", "p2pk", "multi":
			can[i] = true
		default:
			if full || pre.ins[i].unlock == "" {
				odd++
			}
		}
	}
	var err error
	if full {
		k.Call("Sign", func() { _, err = tx.Sign(need) })
	} else {
		k.Call("SignOnly", func() { _, err = tx.SignOnly(need) })
	}
	post := k.traceState("after signing", tx)
	k.Tracef("  full %v, %d of %d inputs can't be signed -> %v", full, odd, len(pre.ins), err)
	k.Distinct("sign full%v odd%d ins%d keys%d %v", full, odd, bucket(len(pre.ins)), bucket(len(need)), errors.Cause(err))
	for i := range pre.ins {
		if !can[i] && i < len(post.ins) {
			k.Check("left unsigned", post.ins[i].unlock == pre.ins[i].unlock, "input %d can't be signed but got %s", i, shortHex(post.ins[i].unlock))
		}
	}
	switch c := errors.Cause(err); {
	case odd == 0:
		k.Check("signed by others", !unsupported(err), "everything that can't be signed is signed already: %v", err)
	case full && (c == txb.ErrInsufficientValue || c == txb.ErrChangeAddressNeeded):
		k.Decide("not funded")
	default:
		k.Check("unsupported input reported", unsupported(err), "%d inputs can't be signed, signing gives: %v", odd, err)
	}
	if !full {
		a, b := pre.clone(), post.clone()
		for i := range a.ins {
			if can[i] && a.ins[i].unlock == "" && i < len(b.ins) {
				b.ins[i].unlock = ""
			}
		}
		k.Check("nothing else touched", a.diff(b) == "", "signing without fee adjustment changed: %s", a.diff(b))
	}
	k.Sample(map[string]interface{}{"state": pre.brief(), "full": full, "unsupported": odd, "result": errString(err)})
}

// refuseFundingCase offers outputs that can't be spent among others.
func refuseFundingCase(k *K) {
	opts := stateOpts{remainders: 1}
	st := k.genState(opts)
	tx := st.tx
	if k.Intn(6) == 0 {
		var err error
		a, _ := k.address(k.lockP2PKH())
		k.Call("AddMaxOutput", func() { err = tx.AddMaxOutput(a) })
		if err != nil {
			k.Fail("setup", "adding the output for the maximum was refused: %s", err)
		}
	}
	breaks := k.Intn(2) == 0
	offer := k.genOffer(tx, 1+k.Intn(5), k.lockP2PKH().script, 0, k.lockSized)
	bad := map[wire.OutPoint]bool{}
	for n := 1 + k.Intn(2); n > 0; n-- {
		l := k.lockUnknown()
		if k.Intn(3) == 0 {
			l = k.lockData()
		}
		u := k.utxo(l, k.value())
		at := k.Intn(len(offer) + 1)
		offer = append(offer[:at], append([]bitcoin.UTXO{u}, offer[at:]...)...)
		bad[wire.OutPoint{Hash: u.Hash, Index: u.Index}] = true
		k.Tracef("offer %d of %d is %s", at, len(offer), l.kind)
	}
	var to []txb.AddressKeyID
	for n := 1 + k.Intn(4); n > 0; n-- {
		a, _ := k.address(k.lockP2PKH())
		to = append(to, txb.AddressKeyID{Address: a})
	}
	pre := k.traceState("before funding", tx)
	var err error
	if breaks {
		bv := uint64(1000 + k.Intn(100000))
		k.Call("AddFundingBreakChange", func() { err = tx.AddFundingBreakChange(offer, bv, to) })
	} else {
		k.Call("AddFunding", func() { err = tx.AddFunding(offer) })
	}
	post := k.traceState("after funding", tx)
	k.Tracef("  result: %v", err)
	taken := 0
	for i := len(pre.ins); i < len(post.ins); i++ {
		if bad[wire.OutPoint{Hash: post.ins[i].hash, Index: post.ins[i].index}] {
			taken++
		}
	}
	k.Distinct("fund break%v taken%d offered%d max%v %v", breaks, taken, len(offer), pre.sendMax, errors.Cause(err))
	if err == nil {
		k.Check("unspendable offer not taken", taken == 0, "funding succeeded with %d inputs of unknown size", taken)
		return
	}
	if pre.sendMax && len(bad) > 0 {
		k.Check("unspendable offer reported", unsupported(err), "everything offered has to be spent, of which %d can't be: %v", len(bad), err)
	}
	if taken > 0 {
		k.Check("unspendable offer reported", unsupported(err), "%d inputs of unknown size were taken: %v", taken, err)
	}
}

// refuseAddressCase uses addresses that stand for no script.
func refuseAddressCase(k *K) {
	st := k.genState(stateOpts{remainders: 1})
	tx := st.tx
	var none bitcoin.RawAddress
	pre := k.traceState("before", tx)
	var err error
	name := ""
	value := k.value()
	switch k.Intn(9) {
	case 0:
		name = "AddPaymentOutput"
		k.Call(name, func() { err = tx.AddPaymentOutput(none, value+1000000, k.Intn(2) == 0) })
	case 1:
		name = "AddDustOutput"
		k.Call(name, func() { err = tx.AddDustOutput(none, k.Intn(2) == 0) })
	case 2:
		name = "AddMaxOutput"
		k.Call(name, func() { err = tx.AddMaxOutput(none) })
	case 3:
		name = "SetChangeAddress"
		k.Call(name, func() { err = tx.SetChangeAddress(none, k.ident()) })
	case 4:
		name = "AddressOutputFee"
		k.Call(name, func() { _, err = txb.AddressOutputFee(none, k.rate()) })
	case 5:
		name = "DustLimitForAddress"
		k.Call(name, func() { _, err = txb.DustLimitForAddress(none, k.rate()) })
	case 6:
		name = "OutputFeeAndDustForAddress"
		k.Call(name, func() { _, _, err = txb.OutputFeeAndDustForAddress(none, k.dustRate(), k.rate()) })
	case 7:
		// among others, so that it may not be needed
		name = "BreakValue"
		var to []txb.AddressKeyID
		n := 1 + k.Intn(6)
		at := k.Intn(n)
		for i := 0; i < n; i++ {
			a, _ := k.address(k.lockP2PKH())
			if i == at {
				a = none
			}
			to = append(to, txb.AddressKeyID{Address: a})
		}
		bv := uint64(1 + k.Intn(10000))
		var outs []*txb.Output
		k.Call(name, func() {
			outs, err = txb.BreakValue(value, bv, to, k.dustRate(), k.rate(), k.Intn(2) == 0, k.Intn(2) == 0)
		})
		k.Tracef("broke %d by %d over %d, the one at %d without a script: %d outputs, %v", value, bv, n, at, len(outs), err)
		if err == nil {
			for i, o := range outs {
				k.Check("no script, no output", len(o.TxOut.LockingScript) > 0, "output %d pays nobody", i)
			}
			k.Check("no script, no output", len(outs) <= at, "%d outputs although the destination at %d has no script", len(outs), at)
			k.Decide("destination not needed")
			return
		}
		k.Check("no script, no output", len(outs) == 0, "%d outputs and error %v", len(outs), err)
	default:
		name = "AddFundingBreakChange"
		if pre.remainder() >= 0 {
			k.Skip("change goes to the remainder")
			return
		}
		offer := k.genOffer(tx, 1+k.Intn(4), k.lockP2PKH().script, 1, k.lockSpendable)
		var to []txb.AddressKeyID
		switch k.Intn(3) {
		case 0:
			// nowhere to put the change
			k.Call(name, func() { err = tx.AddFundingBreakChange(offer, uint64(1+k.Intn(10000)), to) })
			k.Tracef("%s over no addresses: %v", name, err)
			k.Check("no addresses refused", errors.Cause(err) == txb.ErrChangeAddressNeeded, "change is to be broken up over no addresses: %v", err)
			d := pre.diff(k.Snap(tx))
			k.Check("refusal changes nothing", d == "", "%s was refused but changed %s", name, d)
			return
		case 1:
			a, _ := k.address(k.lockP2PKH())
			to = append(to, txb.AddressKeyID{Address: a})
		}
		good := len(to)
		to = append(to, txb.AddressKeyID{Address: none})
		k.Call(name, func() { err = tx.AddFundingBreakChange(offer, uint64(1+k.Intn(10000)), to) })
		k.Tracef("%s with %d usable addresses of %d: %v", name, good, len(to), err)
		for i := range tx.MsgTx.TxOut {
			k.Check("no script, no output", i < len(pre.outs) || len(tx.MsgTx.TxOut[i].LockingScript) > 0, "output %d pays nobody", i)
		}
		if good == 0 {
			k.Check("no script refused", err != nil, "%s accepts an address without a script", name)
		} else if err == nil {
			post := k.Snap(tx)
			k.Check("change not lost", post.fee() <= int64(post.estFee()+2*ceilFee(34, post.feeRate)+ceilFee(149, post.feeRate))+300,
				"funded but pays %d, %d is the fee for the size", post.fee(), post.estFee())
		}
		return
	}
	k.Tracef("%s: %v", name, err)
	k.Check("no script refused", err != nil, "%s accepts an address without a script", name)
	d := pre.diff(k.Snap(tx))
	k.Check("refusal changes nothing", d == "", "%s was refused but changed %s", name, d)
	k.Distinct("address %s", name)
}

func errString(err error) string {
	if err == nil {
		return "success"
	}
	return err.Error()
}

func init() {
	register("C35", "Transactions with 1-2 inputs that can't be signed at any position (unknown, data, agent, cut, extended and absent scripts, some signed by others) are signed fully and without fee adjustment with all or some keys; lists with 1-2 outputs of unknown size at any position are offered for funding of both kinds; and addresses without a script are used in every call that takes one. Distinct counts combinations of call, numbers of inputs, keys, offers and unsupported ones, and outcome.", func(c *C) {
		c.Require("unsupported input reported", 1000)
		c.Require("left unsigned", 2000)
		c.Require("unspendable offer reported", 1000)
		c.Require("unspendable offer not taken", 300)
		c.Require("no script refused", 1000)
		c.Require("no addresses refused", 100)
		c.Require("change not lost", 30)
		c.Cases("signing", c.Pick(5000, 50000), refuseSigningCase)
		c.Cases("funding", c.Pick(15000, 150000), refuseFundingCase)
		c.Cases("addresses", c.Pick(15000, 150000), refuseAddressCase)
	})
}
