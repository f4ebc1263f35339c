package main

import (
	"github.com/tokenized/pkg/bitcoin"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// fundObs is one observed funding call.
type fundObs struct {
	pre, post *snap
	utxos     []bitcoin.UTXO
	err       error
	cause     error
	supported bool // every offered output can be spent by a supported script
}

// fresh returns the offered outputs that funding may take, in order: the ones that are neither
// spent already nor repeated.
func (o *fundObs) fresh() []bitcoin.UTXO {
	seen := map[[36]byte]bool{}
	id := func(h bitcoin.Hash32, i uint32) (r [36]byte) {
		copy(r[:], h[:])
		copy(r[32:], le32(i))
		return
	}
	for i := range o.pre.ins {
		seen[id(o.pre.ins[i].hash, o.pre.ins[i].index)] = true
	}
	var r []bitcoin.UTXO
	for _, u := range o.utxos {
		if x := id(u.Hash, u.Index); !seen[x] {
			seen[x] = true
			r = append(r, u)
		}
	}
	return r
}

func (s *snap) withInput(u bitcoin.UTXO) *snap {
	r := *s
	r.ins = append(s.ins[:len(s.ins):len(s.ins)], snapIn{hash: u.Hash, index: u.Index, seq: 0xffffffff,
		lock: string(u.LockingScript), value: u.Value, keyID: u.KeyID})
	return &r
}

// fundCurve gives for every prefix of the fresh outputs the funds and what they have to cover.
type fundCurve struct {
	in   []uint64 // total input value after k inputs
	need []uint64 // outputs plus the fee at the estimated size
	size []int
}

func (o *fundObs) curve(fresh []bitcoin.UTXO, extraOut int) *fundCurve {
	c := &fundCurve{}
	size := o.pre.estSize() - varintLen(uint64(len(o.pre.ins)))
	if extraOut > 0 {
		size += extraOut + varintLen(uint64(len(o.pre.outs)+1)) - varintLen(uint64(len(o.pre.outs)))
	}
	in := o.pre.inValue()
	out := o.pre.outValue()
	for k := 0; ; k++ {
		n := size + varintLen(uint64(len(o.pre.ins)+k))
		c.in = append(c.in, in)
		c.size = append(c.size, n)
		c.need = append(c.need, out+ceilFee(n, o.pre.feeRate))
		if k == len(fresh) {
			return c
		}
		size += estInput(fresh[k].LockingScript, nil)
		in += fresh[k].Value
	}
}

// genOffer makes the offered outputs, placing the running total near the points where a decision
// changes.
func (k *K) genOffer(tx *txb.TxBuilder, n int, changeScript []byte, extraOut int, lockIn func() lock) []bitcoin.UTXO {
	pre := takeSnap(tx)
	utxos := make([]bitcoin.UTXO, n)
	for i := range utxos {
		l := lockIn()
		if n > 100 {
			l = k.lockP2PKH()
		}
		utxos[i] = k.utxo(l, 0)
	}
	if n == 0 {
		return utxos
	}
	rate := pre.feeRate
	o := &fundObs{pre: pre, utxos: utxos}
	c := o.curve(utxos, extraOut)
	// which input completes the funding
	at := 1 + k.Intn(n)
	if k.Intn(3) == 0 {
		at = n
	}
	outFee := ceilFee(outSize(changeScript), rate)
	inFee := uint64(0)
	if is, ok := inSize(changeScript); ok {
		inFee = ceilFee(is, rate)
	}
	dust := dustLimit(outSize(changeScript), pre.dustRate)
	var over int64
	switch k.Intn(9) {
	case 0:
		over = 0
	case 1:
		over = int64(k.Intn(at+4)) - int64(at+4)/2
	case 2:
		over = int64(dust)
	case 3:
		over = int64(dust + outFee)
	case 4:
		over = int64(outFee + inFee)
	case 5:
		over = int64(2*outFee + inFee)
	case 6:
		over = int64(k.Intn(int(2*(dust+outFee+inFee)) + 10))
	case 7:
		over = int64(k.Intn(1000000))
	case 8:
		over = -int64(k.Intn(1000))
	}
	if k.Intn(2) == 0 {
		over += int64(k.Intn(7)) - 3
	}
	target := int64(c.need[at]) + over - int64(c.in[0])
	// spread over the first inputs, each of which should leave the transaction unfunded
	rest := target
	even := n > 100 && k.Intn(4) != 0 // so that the last one is really reached
	for i := 0; i < at; i++ {
		var v int64
		if i == at-1 {
			v = rest
		} else if rest > 0 {
			way := k.Intn(3)
			if even {
				way = 1 + k.Intn(2)
			}
			switch way {
			case 0:
				v = k.Int63n(rest + 1)
			case 1:
				v = rest / int64(at-i)
			case 2:
				// barely pays for itself or not even that
				v = int64(ceilFee(estInput(utxos[i].LockingScript, nil), rate)) + int64(k.Intn(5)) - 2
			}
		}
		if v < 0 {
			v = 0
		}
		utxos[i].Value = uint64(v)
		rest -= v
	}
	for i := at; i < n; i++ {
		utxos[i].Value = k.value()
	}
	// sprinkle duplicates
	if k.Intn(4) == 0 {
		for d := 0; d < 1+k.Intn(3); d++ {
			var dup bitcoin.UTXO
			if len(pre.ins) > 0 && k.Intn(2) == 0 {
				in := pre.ins[k.Intn(len(pre.ins))]
				dup = bitcoin.UTXO{Hash: in.hash, Index: in.index, Value: in.value, LockingScript: []byte(in.lock), KeyID: "dup"}
			} else {
				dup = utxos[k.Intn(len(utxos))]
			}
			p := k.Intn(len(utxos) + 1)
			utxos = append(utxos[:p:p], append([]bitcoin.UTXO{dup}, utxos[p:]...)...)
		}
	}
	// same hash or same index as another one, but a different output
	if k.Intn(4) == 0 && len(utxos) > 1 {
		i, j := k.Intn(len(utxos)), k.Intn(len(utxos))
		if i != j && utxos[i].Hash != utxos[j].Hash && len(utxos[i].LockingScript) > 0 {
			utxos[i].Hash = utxos[j].Hash
			utxos[i].Index = utxos[j].Index + 1 + uint32(k.Intn(3))
		}
	}
	return utxos
}

// fundingCase makes a builder and funds it, up to three times, passing each observed call on.
func fundingCase(k *K, judge func(o *fundObs)) {
	st := k.genState(stateOpts{many: true, huge: true, remainders: 4, unlockData: true})
	tx := st.tx
	// Often start from nothing or from too little so that funding has something to do.
	if k.Intn(3) != 0 {
		for len(tx.Inputs) > 0 && len(tx.Inputs) < 100 && k.Intn(4) != 0 {
			if err := tx.RemoveInput(len(tx.Inputs) - 1); err != nil {
				k.Fail("setup", "removing an input was refused: %s", err)
			}
		}
		for i := range tx.Inputs {
			if tx.Inputs[i].Value > 0 {
				tx.Inputs[i].Value = 1 + uint64(k.Intn(500))
			}
		}
	}
	// or from a chosen excess over the fee
	if len(tx.Inputs) > 0 && len(tx.Inputs[0].LockingScript) > 0 && k.Intn(4) == 0 {
		tx.Inputs[0].Value = 0
		s := takeSnap(tx)
		want := int64(s.outValue()+s.estFee()) - int64(s.inValue())
		cs := tx.ChangeScript
		if len(cs) == 0 {
			cs = k.lockP2PKH().script
		}
		oc := int64(ceilFee(outSize(cs), tx.FeeRate))
		switch k.Intn(4) {
		case 0:
			want += int64(k.Intn(7)) - 3
		case 1:
			want += oc*2 + int64(ceilFee(estInput(cs, nil), tx.FeeRate)) + int64(k.Intn(7)) - 3
		case 2:
			want += int64(k.Intn(int(oc*12 + 10)))
		case 3:
			want += int64(k.Intn(100000))
		}
		if want > 0 {
			tx.Inputs[0].Value = uint64(want)
		}
	}

	calls := 1 + k.Intn(3)
	for c := 0; c < calls; c++ {
		cs := []byte(tx.ChangeScript)
		if r := takeSnap(tx).remainder(); r >= 0 {
			cs = tx.MsgTx.TxOut[r].LockingScript
		} else if len(cs) == 0 {
			cs = k.lockP2PKH().script
		}
		n := k.Intn(7)
		if k.Intn(25) == 0 {
			n = 240 + k.Intn(60)
		} else if k.Intn(500) == 0 {
			n = 500 + k.Intn(1000)
		}
		utxos := k.genOffer(tx, n, cs, 0, k.lockSized)
		o := &fundObs{pre: k.traceState("before funding", tx), utxos: append([]bitcoin.UTXO(nil), utxos...)}
		for i, u := range utxos {
			if i < 8 {
				k.Tracef("  offer %d: %x..:%d %s %d", i, u.Hash[:4], u.Index, classify(u.LockingScript).kind, u.Value)
			}
		}
		k.Call("AddFunding", func() { o.err = tx.AddFunding(utxos) })
		o.cause = errors.Cause(o.err)
		o.post = k.traceState("after funding", tx)
		k.Tracef("  result: %v", o.err)
		if o.err == nil {
			k.Event("funded")
		} else if o.cause == txb.ErrInsufficientValue {
			k.Event("insufficient")
		} else if o.cause == txb.ErrChangeAddressNeeded {
			k.Event("change needed")
		}
		judge(o)
	}
}

func rateClass(r float32) string {
	switch {
	case r == 0:
		return "zero"
	case r < 0.5:
		return "low"
	case r < 2:
		return "one"
	}
	return "high"
}

func bucket(n int) int {
	switch {
	case n <= 3:
		return n
	case n < 100:
		return 4
	case n <= 252:
		return 5
	}
	return 6
}

func (o *fundObs) signature() []interface{} {
	appended := len(o.post.outs) - len(o.pre.outs)
	return []interface{}{bucket(len(o.pre.ins)), bucket(len(o.post.ins) - len(o.pre.ins)), bucket(len(o.pre.outs)),
		appended, o.pre.remainder() >= 0, classify([]byte(o.pre.change)).kind, rateClass(o.pre.feeRate), rateClass(o.pre.dustRate), o.cause}
}

const fundSig = "in%d+%d out%d+%d rem%v chg%s rate%v dust%v %v"

func (o *fundObs) sample() map[string]interface{} {
	return map[string]interface{}{"before": o.pre.brief(), "offered": len(o.utxos), "after": o.post.brief(),
		"fee": o.post.fee(), "estimated_fee": o.post.estFee()}
}

// wholeRate tells that fees are exact at a rate, so that there is nothing to round.
func wholeRate(rate float32) bool { return rate == float32(int(rate)) }

func rounding(o *fundObs) uint64 {
	if wholeRate(o.pre.feeRate) {
		return 0
	}
	return uint64(len(o.post.ins) + len(o.post.outs) + 2)
}

// changeBound is the most that may be left to the fee instead of being given back.
func changeBound(o *fundObs) uint64 {
	rate, dust := o.pre.feeRate, o.pre.dustRate
	if i := o.pre.remainder(); i >= 0 {
		// Value can be put on the existing output; only dust amounts may be left.
		s := []byte(o.pre.outs[i].script)
		b := dustLimit(outSize(s), dust)
		if is, ok := inSize(s); ok {
			if c := ceilFee(outSize(s), rate) + ceilFee(is, rate); c > b {
				b = c
			}
		}
		return b
	}
	count := ceilFee(varintLen(uint64(len(o.pre.outs)+1))-varintLen(uint64(len(o.pre.outs))), rate) // one more output can need a longer count
	if len(o.pre.change) > 0 {
		s := []byte(o.pre.change)
		of := ceilFee(outSize(s), rate)
		d := dustLimit(outSize(s), dust)
		if d < of {
			d = of // an output below the fee to include it is refused by the builder
		}
		b := d + of
		inFee := uint64(0)
		if is, ok := inSize(s); ok {
			inFee = ceilFee(is, rate)
		}
		if c := 2*of + inFee; c > b {
			b = c
		}
		return b + count
	}
	b := dustLimit(34, dust) + ceilFee(34, rate)
	if c := ceilFee(34, rate) + ceilFee(68, rate) + ceilFee(298, rate); c > b {
		b = c
	}
	return b + count
}

func judgeC01(k *K, o *fundObs) {
	if o.err != nil {
		k.Skip("not funded")
		return
	}
	fee := o.post.fee()
	est := o.post.estFee()
	k.Check("pays the fee rate", fee >= int64(est), "funded transaction pays %d, below %d for its estimated size %d",
		fee, est, o.post.estSize())
	bound := rounding(o)
	if len(o.post.outs) > len(o.pre.outs) {
		// change was given back, so only rounding may be left
	} else {
		bound += changeBound(o)
	}
	k.Check("keeps no excess", uint64(fee)-est <= bound,
		"funded transaction pays %d, %d more than the fee for its size; at most %d is too small to give back",
		fee, uint64(fee)-est, bound)
	k.Distinct(fundSig, o.signature()...)
	k.Sample(o.sample())
}

// judgeTaken checks what funding did to the inputs and to the existing outputs; it returns how many
// inputs and outputs were added.
func judgeTaken(k *K, o *fundObs) (fresh []bitcoin.UTXO, added, extra int) {
	pre, post := o.pre, o.post
	fresh = o.fresh()
	k.Check("existing inputs kept", len(post.ins) >= len(pre.ins), "inputs disappeared: %d -> %d", len(pre.ins), len(post.ins))
	for i := range pre.ins {
		if pre.ins[i] != post.ins[i] {
			k.Fail("existing inputs kept", "input %d changed from %s to %s", i, pre.ins[i], post.ins[i])
		}
	}
	added = len(post.ins) - len(pre.ins)
	k.Check("only offered outputs", added <= len(fresh), "%d inputs were added but only %d spendable outputs were offered", added, len(fresh))
	for i := 0; i < added; i++ {
		u := fresh[i]
		want := snapIn{hash: u.Hash, index: u.Index, seq: 0xffffffff, lock: string(u.LockingScript), value: u.Value, keyID: u.KeyID}
		k.Check("offered order", post.ins[len(pre.ins)+i] == want, "added input %d is %s, the offered one is %s",
			i, post.ins[len(pre.ins)+i], want)
	}
	k.Check("payments kept", len(post.outs) >= len(pre.outs), "outputs disappeared: %d -> %d", len(pre.outs), len(post.outs))
	for i := range pre.outs {
		a, b := pre.outs[i], post.outs[i]
		if a.remainder {
			k.Check("remainder never shrinks", b.value >= a.value, "the remainder output went from %d to %d", a.value, b.value)
			b.value = a.value
		}
		if a != b {
			k.Fail("payments kept", "output %d changed from %s to %s", i, pre.outs[i], post.outs[i])
		}
	}
	return fresh, added, len(post.outs) - len(pre.outs)
}

func judgeC02(k *K, o *fundObs) {
	pre, post := o.pre, o.post
	fresh, added, extra := judgeTaken(k, o)
	k.Check("one change output", extra <= 1, "%d outputs were added", extra)
	if extra == 1 {
		want := snapOut{script: pre.change, value: post.outs[len(pre.outs)].value, remainder: true, keyID: pre.changeKey}
		k.Check("change output", len(pre.change) > 0 && pre.remainder() < 0 && o.err == nil && post.outs[len(pre.outs)] == want,
			"added output is %s, the change destination is %s", post.outs[len(pre.outs)], want)
	}
	a, b := pre.clone(), post.clone()
	a.ins, a.outs, b.ins, b.outs = nil, nil, nil, nil
	d := a.diff(b)
	k.Check("settings kept", d == "", "funding changed the settings: %s", d)

	judgeStops(k, o, fresh, added, 0)
	k.Distinct(fundSig, o.signature()...)
	k.Sample(o.sample())
}

// judgeStops checks that funding stopped as soon as the transaction was funded.
func judgeStops(k *K, o *fundObs, fresh []bitcoin.UTXO, added, extraOut int) {
	pre := o.pre
	if added > 0 && pre.feeRate > 0 {
		c := o.curve(fresh, extraOut)
		slack := rounding(o)
		for j := 0; j < added; j++ {
			if c.in[j] > c.need[j]+slack {
				k.Fail("stops when funded", "%d outputs were taken although the first %d already give %d for the %d needed",
					added, j, c.in[j], c.need[j])
			}
		}
		k.Decide("stops when funded")
	}
}

func judgeC03(k *K, o *fundObs) {
	if o.pre.feeRate == 0 {
		k.Skip("zero fee rate")
		return
	}
	fresh := o.fresh()
	c := o.curve(fresh, 0)
	switch o.cause {
	case nil:
		k.Decide("funded")
	case txb.ErrInsufficientValue:
		slack := uint64(len(o.pre.ins) + len(fresh) + len(o.pre.outs) + 1)
		if wholeRate(o.pre.feeRate) {
			slack = 0
		}
		for j := range c.in {
			if c.in[j] >= c.need[j]+slack {
				k.Fail("value was there", "insufficient value reported (%s) although %d inputs worth %d cover outputs and fee of %d",
					o.err, len(o.pre.ins)+j, c.in[j], c.need[j])
			}
		}
		k.Decide("value was lacking")
	case txb.ErrChangeAddressNeeded:
		k.Check("no change destination", len(o.pre.change) == 0 && o.pre.remainder() < 0,
			"a change destination was demanded although there is one")
		added := len(o.post.ins) - len(o.pre.ins)
		if added > len(fresh) {
			k.Fail("no change destination", "more inputs than offered")
		}
		left := int64(c.in[added]) - int64(c.need[added])
		worth := int64(dustLimit(34, o.pre.dustRate)) + int64(floorFee(34, o.pre.feeRate))
		if added == 0 {
			worth = int64(ceilFee(34, o.pre.feeRate))
		}
		k.Check("change is worth it", left+2 > worth, "a change destination was demanded for %d left over, which is not worth %d", left, worth)
	default:
		k.Fail("other failure", "funding failed with: %v", o.err)
	}
	k.Distinct(fundSig, o.signature()...)
	k.Sample(o.sample())
}

const fundRule = "Cases are drawn from the seed: builder states (0-4 or ~252 inputs/outputs of all script types, unlocking-data inputs, optional remainder and change destination), offers of 0-6 or 240-300 outputs whose running total is placed at, just below or just above the funding, dust and change-cost thresholds, with duplicates, and up to three funding calls in a row. A call is non-trivial when the monitor judged it; distinct counts different combinations of size classes, change setup, rates and outcome."

func init() {
	register("C01", fundRule, func(c *C) {
		c.Require("pays the fee rate", 1000)
		c.Cases("fund", c.Pick(40000, 400000), func(k *K) { fundingCase(k, func(o *fundObs) { judgeC01(k, o) }) })
	})
	register("C02", fundRule, func(c *C) {
		c.Require("offered order", 1000)
		c.Require("change output", 500)
		c.Require("stops when funded", 500)
		c.Cases("fund", c.Pick(40000, 400000), func(k *K) { fundingCase(k, func(o *fundObs) { judgeC02(k, o) }) })
		c.Cases("break", c.Pick(10000, 100000), func(k *K) {
			breakFundingCase(k, func(o *fundObs, addrs []txb.AddressKeyID, _ uint64, extraOut int) {
				fresh, added, _ := judgeTaken(k, o)
				judgeStops(k, o, fresh, added, extraOut)
				k.Distinct("break "+fundSig, o.signature()...)
			})
		})
	})
	register("C03", fundRule, func(c *C) {
		c.Require("value was lacking", 500)
		c.Require("change is worth it", 100)
		c.Require("funded", 1000)
		c.Cases("fund", c.Pick(40000, 400000), func(k *K) { fundingCase(k, func(o *fundObs) { judgeC03(k, o) }) })
		c.Cases("break", c.Pick(10000, 100000), func(k *K) {
			breakFundingCase(k, func(o *fundObs, addrs []txb.AddressKeyID, _ uint64, extraOut int) {
				judgeBreakFailure(k, o, addrs, extraOut)
				k.Distinct("break "+fundSig, o.signature()...)
			})
		})
	})
}
