package main

import (
	"github.com/tokenized/pkg/bitcoin"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// lockAddress is a script that has an address form.
func (k *K) lockAddress() (lock, bitcoin.RawAddress) {
	for {
		l := k.lockSpendable()
		if ra, ok := k.address(l); ok {
			return l, ra
		}
	}
}

var breakValues = []uint64{1, 2, 3, 4, 5, 7, 9, 10, 11, 50, 99, 100, 546, 1000, 1000, 2000, 10000, 100000, 5000000}

func (k *K) breakValue() uint64 {
	if k.Intn(8) == 0 {
		return 1 + uint64(k.Intn(30))
	}
	return breakValues[k.Intn(len(breakValues))]
}

// changeAddresses makes destinations that no existing output pays to, each with its own identifier.
func (k *K) changeAddresses(n int, avoid map[string]bool) (addrs []txb.AddressKeyID, scripts []bitcoin.Script) {
	for i := 0; len(addrs) < n; i++ {
		l, ra := k.lockAddress()
		if avoid[string(l.script)] {
			continue
		}
		id := ""
		if k.Intn(20) != 0 || n > 1 {
			id = "chg" + string(rune('a'+len(addrs)%26)) + string(rune('a'+len(addrs)/26%26)) + string(rune('a'+len(addrs)/676))
		}
		addrs = append(addrs, txb.AddressKeyID{Address: ra, KeyID: id})
		scripts = append(scripts, l.script)
	}
	return
}

// breakFundingCase funds a builder with the change to be broken up.
func breakFundingCase(k *K, judge func(o *fundObs, addrs []txb.AddressKeyID, breakValue uint64, extraOut int)) {
	st := k.genState(stateOpts{many: true, huge: true, remainders: 1, unlockData: true})
	tx := st.tx
	if k.Intn(3) != 0 {
		for i := range tx.Inputs {
			if tx.Inputs[i].Value > 0 {
				tx.Inputs[i].Value = 1 + uint64(k.Intn(500))
			}
		}
	}
	calls := 1 + k.Intn(2)
	for c := 0; c < calls; c++ {
		pre := takeSnap(tx)
		avoid := map[string]bool{}
		for i := range pre.outs {
			avoid[pre.outs[i].script] = true
		}
		n := 1 + k.Intn(7)
		switch k.Intn(12) {
		case 0:
			n = 1
		case 1:
			n = 20 + k.Intn(30)
		case 2:
			n = k.boundaryCount()
			if len(pre.outs) < n && k.Intn(2) == 0 {
				n -= len(pre.outs)
			}
		}
		if pre.remainder() >= 0 && k.Intn(4) == 0 {
			n = 0
		}
		addrs, scripts := k.changeAddresses(n, avoid)
		var cs []byte
		extraOut := 0
		if r := pre.remainder(); r >= 0 {
			cs = []byte(pre.outs[r].script)
		} else {
			cs = scripts[0]
			extraOut = outSize(cs)
		}
		// an excess around the threshold of what is already funded
		if len(tx.Inputs) > 0 && len(tx.Inputs[0].LockingScript) > 0 && k.Intn(4) == 0 {
			tx.Inputs[0].Value = 0
			s := takeSnap(tx)
			want := int64(s.outValue()+s.estFee()) - int64(s.inValue())
			oc := int64(ceilFee(outSize(cs), tx.FeeRate))
			ic := int64(ceilFee(estInput(cs, nil), tx.FeeRate))
			switch k.Intn(4) {
			case 0:
				want += int64(k.Intn(7)) - 3
			case 1:
				want += oc + int64(k.Intn(7)) - 3
			case 2:
				want += k.Int63n(2*oc + ic + 10)
			case 3:
				want += 2*oc + ic + int64(k.Intn(9)) - 4
			}
			if want > 0 {
				tx.Inputs[0].Value = uint64(want)
			}
		}
		bv := k.breakValue()
		m := k.Intn(6)
		if k.Intn(25) == 0 {
			m = 240 + k.Intn(30)
		}
		utxos := k.genOffer(tx, m, cs, extraOut, k.lockSized)
		if len(utxos) > 0 && k.Intn(2) == 0 {
			// plenty to break up
			utxos[len(utxos)-1].Value += uint64(k.Int63n(int64(bv)*int64(len(addrs)*20+10) + 100))
		}
		o := &fundObs{pre: k.traceState("before funding", tx), utxos: append([]bitcoin.UTXO(nil), utxos...)}
		for i, u := range utxos {
			if i < 8 {
				k.Tracef("  offer %d: %x..:%d %s %d", i, u.Hash[:4], u.Index, classify(u.LockingScript).kind, u.Value)
			}
		}
		k.Tracef("  break value %d over %d addresses", bv, len(addrs))
		k.Call("AddFundingBreakChange", func() { o.err = tx.AddFundingBreakChange(utxos, bv, addrs) })
		o.cause = errors.Cause(o.err)
		o.post = k.traceState("after funding", tx)
		k.Tracef("  result: %v", o.err)
		if o.err == nil {
			k.Event("funded")
		} else {
			k.Event("not funded")
		}
		judge(o, addrs, bv, extraOut)
	}
}

func judgeC04(k *K, o *fundObs, addrs []txb.AddressKeyID, breakValue uint64) {
	if o.err != nil {
		k.Skip("not funded")
		return
	}
	pre, post := o.pre, o.post
	rate := pre.feeRate
	fee, est := post.fee(), post.estFee()
	k.Check("pays the fee rate", fee >= int64(est), "funded transaction pays %d, below %d for its estimated size %d", fee, est, post.estSize())
	_, _, extra := judgeTaken(k, o)
	bound := rounding(o) + ceilFee(4, rate)
	if pre.remainder() >= 0 {
		k.Check("remainder takes all", extra == 0, "%d outputs were added although there is a remainder output", extra)
	} else {
		if extra == 0 {
			s, err := addrs[0].Address.LockingScript()
			if err != nil {
				panic(err)
			}
			is, _ := inSize(s)
			bound += 2*ceilFee(outSize(s), rate) + ceilFee(is, rate)
		} else {
			judgeBroken(k, post.outs[len(pre.outs):], addrs, breakValue)
			k.Check("one remainder", post.remainders() == 1, "%d of %d change outputs are marked as the remainder", post.remainders(), extra)
		}
	}
	k.Check("keeps no excess", uint64(fee)-est <= bound, "funded transaction pays %d, %d more than the fee for its size; at most %d is too small to give back",
		fee, uint64(fee)-est, bound)
	k.Distinct("out%d+%d addrs%d bv%d rem%v rate%s in+%d", bucket(len(pre.outs)), bucket(extra), bucket(len(addrs)), breakValue,
		pre.remainder() >= 0, rateClass(rate), bucket(len(post.ins)-len(pre.ins)))
	if extra > 1 {
		k.Sample(map[string]interface{}{"before": pre.brief(), "break_value": breakValue, "addresses": len(addrs), "added_outputs": extra,
			"fee": fee, "estimated_fee": est})
	}
}

// judgeBroken checks outputs that a value was broken into.
func judgeBroken(k *K, outs []snapOut, addrs []txb.AddressKeyID, breakValue uint64) {
	avail := map[string]int{}
	for _, a := range addrs {
		s, err := a.Address.LockingScript()
		if err != nil {
			panic(err)
		}
		avail[string(s)+"|"+a.KeyID]++
	}
	for i, out := range outs {
		id := out.script + "|" + out.keyID
		k.Check("destination", avail[id] > 0, "change output %d pays %s, which is not an unused given address", i, out)
		avail[id]--
		k.Check("no dust mark", !out.dust, "change output %d is marked as dust", i)
		if !out.remainder {
			k.Check("not too small", out.value*10 >= breakValue*9, "change output %d is worth %d, below nine tenths of %d", i, out.value, breakValue)
		}
	}
}

func judgeBreakFailure(k *K, o *fundObs, addrs []txb.AddressKeyID, extraOut int) {
	if o.pre.feeRate == 0 {
		k.Skip("zero fee rate")
		return
	}
	fresh := o.fresh()
	c := o.curve(fresh, extraOut)
	switch o.cause {
	case nil:
		k.Decide("break funded")
	case txb.ErrInsufficientValue:
		slack := uint64(len(o.pre.ins) + len(fresh) + len(o.pre.outs) + 1)
		if wholeRate(o.pre.feeRate) {
			slack = 0
		}
		for j := range c.in {
			if c.in[j] >= c.need[j]+slack {
				k.Fail("value was there", "insufficient value reported (%s) although %d inputs worth %d cover outputs, fee and a change output of %d",
					o.err, len(o.pre.ins)+j, c.in[j], c.need[j])
			}
		}
		k.Decide("break value was lacking")
	default:
		k.Fail("other failure", "funding failed with: %v", o.err)
	}
}

// maxFundingCase funds a builder that sends the maximum.
func maxFundingCase(k *K) {
	st := k.genState(stateOpts{many: true, huge: true, unlockData: true})
	tx := st.tx
	if k.Intn(10) == 0 {
		tx.FeeRate = 0
	}
	l, ra := k.lockAddress()
	var err error
	switch k.Intn(4) {
	case 0:
		k.Call("AddMaxOutput", func() { err = tx.AddMaxOutput(ra) })
	case 1:
		k.Call("AddMaxScriptOutput", func() { err = tx.AddMaxScriptOutput(l.script) })
	case 2:
		tx.SendMax = true
		k.Call("AddOutput", func() { err = tx.AddOutput(l.script, 0, true, false) })
	case 3:
		tx.SendMax = true
		p := k.Intn(len(tx.Outputs) + 1)
		k.Call("InsertOutput", func() { err = tx.InsertOutput(p, l.script, 0, true, false) })
	}
	if err != nil {
		k.Fail("max output refused", "adding the output that receives the maximum was refused: %s", err)
	}
	if !tx.SendMax {
		k.Fail("send max not set", "the builder is not set to send the maximum")
	}
	if k.Intn(2) == 0 {
		for i := range tx.Inputs {
			if tx.Inputs[i].Value > 0 {
				tx.Inputs[i].Value = 1 + uint64(k.Intn(500))
			}
		}
	}
	calls := 1 + k.Intn(3)
	for c := 0; c < calls; c++ {
		n := k.Intn(6)
		switch k.Intn(12) {
		case 0:
			n = 240 + k.Intn(30)
		case 1, 2:
			n = 0
		}
		utxos := k.genOffer(tx, n, l.script, 0, k.lockSized)
		if n > 0 && k.Intn(2) == 0 {
			// total at the threshold: genOffer completes the funding with one of the outputs only
			o := &fundObs{pre: takeSnap(tx), utxos: utxos}
			fresh := o.fresh()
			cv := o.curve(fresh, 0)
			last := len(fresh)
			if last > 0 {
				want := int64(cv.need[last]) - int64(cv.in[last]) + int64(fresh[last-1].Value) + int64(k.Intn(7)) - 3
				if want >= 0 {
					for i := range utxos {
						if utxos[i].Hash == fresh[last-1].Hash && utxos[i].Index == fresh[last-1].Index {
							utxos[i].Value = uint64(want)
						}
					}
				}
			}
		} else if n == 0 && len(tx.Inputs) > 0 && len(tx.Inputs[0].LockingScript) > 0 && k.Intn(2) == 0 {
			tx.Inputs[0].Value = 0
			s := takeSnap(tx)
			if want := int64(s.outValue()+s.estFee()) - int64(s.inValue()) + int64(k.Intn(7)) - 3; want > 0 {
				tx.Inputs[0].Value = uint64(want)
			}
		}
		o := &fundObs{pre: k.traceState("before funding", tx), utxos: append([]bitcoin.UTXO(nil), utxos...)}
		if k.Intn(3) == 0 {
			addrs, _ := k.changeAddresses(k.Intn(4), nil)
			k.Call("AddFundingBreakChange", func() { o.err = tx.AddFundingBreakChange(utxos, k.breakValue(), addrs) })
		} else {
			k.Call("AddFunding", func() { o.err = tx.AddFunding(utxos) })
		}
		o.cause = errors.Cause(o.err)
		o.post = k.traceState("after funding", tx)
		k.Tracef("  result: %v", o.err)
		judgeC05(k, o)
	}
}

func judgeC05(k *K, o *fundObs) {
	pre, post := o.pre, o.post
	r := pre.remainder()
	// reference: everything offered is spent
	want := pre
	for _, u := range o.fresh() {
		want = want.withInput(u)
	}
	in, fee := want.inValue(), want.estFee()
	others := pre.outValue() - pre.outs[r].value
	cost := ceilFee(outSize([]byte(pre.outs[r].script)), pre.feeRate)
	if is, ok := inSize([]byte(pre.outs[r].script)); ok {
		cost += ceilFee(is, pre.feeRate)
	}
	switch o.cause {
	case nil:
		w := want.clone()
		w.outs[r].value = in - others - fee
		k.Check("pays out all but the fee", in >= others+fee, "success although %d does not cover %d and the fee %d", in, others, fee)
		d := w.diff(post)
		k.Check("spends everything", d == "", "expected -> got: %s", d)
	case txb.ErrInsufficientValue:
		if in >= others+fee && pre.outs[r].value > 0 && in-others-fee < cost {
			k.Skip("remainder output would become too small")
			return
		}
		k.Check("value was lacking", in < others+fee, "insufficient value reported although %d covers %d and the fee %d (%s)", in, others, fee, o.err)
	default:
		k.Fail("other failure", "funding failed with: %v", o.err)
	}
	edge := int64(in) - int64(others+fee)
	if edge < -5 || edge > 5 {
		edge = 9
	}
	k.Distinct("in%d+%d out%d rem%v edge%d rate%s %v", bucket(len(pre.ins)), bucket(len(o.utxos)), bucket(len(pre.outs)),
		pre.outs[r].value > 0, edge, rateClass(pre.feeRate), o.cause)
	k.Sample(o.sample())
}

func init() {
	register("C04", "Cases are drawn from the seed: builder states as for plain funding, 0-50 or ~252 change addresses, break values from 1, offers whose total is placed around the thresholds or leaves plenty to break up, already funded transactions with every excess. Run one after another because the library draws from a global random source. Distinct counts combinations of output classes, address count, break value, remainder, rate class and inputs taken.",
		func(c *C) {
			c.Require("destination", 2000)
			c.Require("pays the fee rate", 1000)
			c.Require("remainder takes all", 300)
			c.CasesSerial("break", c.Pick(15000, 150000), func(k *K) {
				breakFundingCase(k, func(o *fundObs, addrs []txb.AddressKeyID, bv uint64, _ int) { judgeC04(k, o, addrs, bv) })
			})
		})
	register("C05", "Cases are drawn from the seed: builders set to send the maximum (all four ways of making the output, at any position), other outputs, 0-5 or 240-270 offered outputs with duplicates, totals within 3 satoshis of the threshold or far from it, up to three calls, plain and break-change funding. Distinct counts combinations of size classes, distance from the threshold, rate class and outcome.",
		func(c *C) {
			c.Require("spends everything", 1000)
			c.Require("value was lacking", 500)
			c.Cases("max", c.Pick(30000, 300000), maxFundingCase)
		})
}
