package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

func lockOfScript(s []byte) lock {
	c := classify(s)
	l := lock{script: s, kind: c.kind, required: c.required}
	for _, h := range c.hashes {
		v, ok := keyByPKH.Load(string(h))
		if c.kind == "p2pk" {
			v, ok = keyByPub.Load(string(h))
		}
		if ok {
			l.keys = append(l.keys, v.(*keyInfo))
		}
	}
	return l
}

// neededKeys picks keys that satisfy all inputs: for multi-signature inputs a random sufficient set.
func (k *K) neededKeys(s *snap) []bitcoin.Key {
	have := map[int]bool{}
	for i := range s.ins {
		l := lockOfScript([]byte(s.ins[i].lock))
		if l.kind == "multi" {
			n := l.required
			if k.Intn(3) == 0 {
				n += k.Intn(len(l.keys) - n + 1)
			}
			for _, p := range k.Perm(len(l.keys))[:n] {
				have[l.keys[p].n] = true
			}
		} else {
			have[l.keys[0].n] = true
		}
	}
	var r []bitcoin.Key
	for n := 0; n < poolSize; n++ {
		if have[n] {
			r = append(r, poolKey(n).key)
		}
	}
	return r
}

// withStrangers mixes in keys that nothing asks for, sometimes repeats one, and shuffles.
func (k *K) withStrangers(keys []bitcoin.Key) []bitcoin.Key {
	r := append([]bitcoin.Key(nil), keys...)
	for n := k.Intn(4); n > 0; n-- {
		r = append(r, poolKey(k.Intn(poolSize)).key)
	}
	if len(keys) > 0 && k.Intn(4) == 0 {
		r = append(r, negated(keys[k.Intn(len(keys))]))
	}
	return k.withRepeats(r)
}

// curveN is the number of points of the curve.
var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// negated returns the key whose public key has the same first coordinate.
func negated(key bitcoin.Key) bitcoin.Key {
	n := new(big.Int).Sub(curveN, new(big.Int).SetBytes(key.Number()))
	r, err := bitcoin.KeyFromNumber(n.FillBytes(make([]byte, 32)), bitcoin.MainNet)
	if err != nil {
		panic(err)
	}
	return r
}

// withRepeats lists some of the keys more than once and shuffles.
func (k *K) withRepeats(keys []bitcoin.Key) []bitcoin.Key {
	r := append([]bitcoin.Key(nil), keys...)
	if len(keys) > 0 && k.Intn(3) == 0 {
		for n := 1 + k.Intn(3); n > 0; n-- {
			r = append(r, keys[k.Intn(len(keys))])
		}
	}
	return shuffleKeys(k, r)
}

// signable is a builder whose inputs can all be signed, with a chosen relation of value to cost.
type signable struct {
	tx *txb.TxBuilder
	// the library added the remainder output itself: for the fee, or as change when funding
	addedForFee, addedByFunding bool
}

func (k *K) genSignable() *signable {
	opts := stateOpts{remainders: 1, lockIn: k.lockSpendable}
	if k.Intn(6) == 0 {
		opts.remainders = 5 // several outputs marked as the remainder
	}
	st := k.genState(opts)
	tx := st.tx
	for len(tx.Inputs) == 0 || k.Intn(4) == 0 {
		k.addInput(st, k.lockSpendable(), k.value())
	}
	if k.Intn(60) == 0 {
		for n := k.boundaryCount(); len(tx.Inputs) < n; {
			k.addInput(st, k.lockP2PKH(), k.value())
		}
	}
	if k.Intn(300) == 0 {
		k.addInput(st, k.lockManySigners(), k.value())
	}
	if k.Intn(6) == 0 {
		k.addSiblings(st)
	}
	if k.Intn(60) == 0 {
		for n := k.boundaryCount(); len(tx.Outputs) < n; {
			l := k.lockP2PKH()
			if err := tx.AddOutput(l.script, k.outAmount(l.script, tx.FeeRate), false, false); err != nil {
				k.Fail("setup", "adding an output of sufficient value was refused: %s", err)
			}
		}
	}
	r := &signable{tx: tx}
	k.setFee(tx)

	switch k.Intn(5) {
	case 0:
		// let the library add change for the fee, then move the goal posts
		pre := takeSnap(tx)
		if pre.remainder() < 0 {
			var err error
			k.Call("CalculateFee", func() { err = tx.CalculateFee() })
			if err == nil && len(tx.Outputs) == len(pre.outs)+1 {
				r.addedForFee = true
				k.Event("change added for fee")
			}
		}
		switch k.Intn(4) {
		case 0:
			tx.FeeRate = k.rate()
		case 1:
			k.nudge(tx)
		case 2:
			if r.addedForFee {
				// more to pay than the change is worth keeping
				ch := tx.MsgTx.TxOut[len(tx.MsgTx.TxOut)-1].Value
				if err := tx.AddOutput(k.lockP2PKH().script, ch, false, false); err == nil {
					k.Event("payment as large as the change added")
				}
			}
		}
	case 1:
		if takeSnap(tx).remainder() < 0 && len(tx.ChangeScript) > 0 {
			pre := len(tx.Outputs)
			utxos := []bitcoin.UTXO{k.utxo(k.lockSpendable(), k.value()), k.utxo(k.lockSpendable(), k.value())}
			k.Call("AddFunding", func() { tx.AddFunding(utxos) })
			if len(tx.Outputs) > pre {
				r.addedByFunding = true
			}
		}
	}
	return r
}

// addSiblings puts inputs on the builder that spend outputs of one transaction with the same script
// and, mostly, the same value.
func (k *K) addSiblings(st *state) {
	l, value, parent := k.lockSpendable(), k.value(), k.hash()
	for n, i := 2+k.Intn(3), uint32(k.Intn(3)); n > 0; n-- {
		if k.Intn(6) == 0 {
			value = k.value()
		}
		if err := st.tx.AddInput(wire.OutPoint{Hash: parent, Index: i}, l.script, value); err != nil {
			k.Fail("setup", "adding a fresh input was refused: %s", err)
		}
		st.locks = append(st.locks, l)
		i += 1 + uint32(k.Intn(2))
	}
	k.Event("outputs of one transaction spent together")
}

// nudge changes the value of an input by a little.
func (k *K) nudge(tx *txb.TxBuilder) {
	in := tx.Inputs[k.Intn(len(tx.Inputs))]
	d := k.Int63n(2000) - 1000
	if int64(in.Value)+d > 0 {
		in.Value = uint64(int64(in.Value) + d)
	}
}

// setFee places the value of the first input so that the fee has a chosen relation to the estimate.
func (k *K) setFee(tx *txb.TxBuilder) {
	in := tx.Inputs[0]
	in.Value = 0
	s := takeSnap(tx)
	cs := []byte(tx.ChangeScript)
	if r := s.remainder(); r >= 0 {
		cs = []byte(s.outs[r].script)
	} else if len(cs) == 0 {
		cs = p2pkhScript(make([]byte, 20))
	}
	oc := int64(ceilFee(outSize(cs), tx.FeeRate))
	ic := int64(ceilFee(estInput(cs, nil), tx.FeeRate))
	want := int64(s.outValue()+s.estFee()) - int64(s.inValue())
	remVal := int64(0)
	if r := s.remainder(); r >= 0 {
		remVal = int64(s.outs[r].value)
	}
	switch k.Intn(10) {
	case 0:
	case 1:
		want += int64(k.Intn(7)) - 3
	case 2:
		want += oc + ic + int64(k.Intn(7)) - 3
	case 3:
		want += 2*oc + ic + int64(k.Intn(7)) - 3
	case 4:
		want += k.Int63n(3*oc + 2*ic + 10)
	case 5:
		want += -remVal + int64(k.Intn(7)) - 3
	case 6:
		want += -remVal + oc + ic + int64(k.Intn(7)) - 3
	case 7:
		if remVal > 0 {
			want -= k.Int63n(remVal)
		}
	default:
		want += int64(k.Intn(10000000))
	}
	if want < 0 {
		want = 0
	}
	in.Value = uint64(want)
}

func (s *snap) kinds() string {
	m := map[string]bool{}
	for i := range s.ins {
		m[classify([]byte(s.ins[i].lock)).kind] = true
	}
	r := ""
	for _, n := range []string{"p2pkh", "p2pk", "multi", "agent", "unknown", "data"} {
		if m[n] {
			r += n + " "
		}
	}
	return r
}

func signCase(k *K, judge func(sg *signable, pre, post *snap, err error)) {
	sg := k.genSignable()
	tx := sg.tx
	rounds := 1
	if k.Intn(3) == 0 {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		if r > 0 {
			switch k.Intn(6) {
			case 0:
				tx.FeeRate = k.rate()
			case 1:
				l := k.lockSpendable()
				if err := tx.AddOutput(l.script, k.outAmount(l.script, tx.FeeRate), false, false); err != nil {
					k.Fail("setup", "adding an output was refused: %s", err)
				}
			case 2:
				if err := tx.AddInputUTXO(k.utxo(k.lockSpendable(), k.value())); err != nil {
					k.Fail("setup", "adding an input was refused: %s", err)
				}
			case 3:
				tx.MsgTx.LockTime++
			case 4:
				tx.MsgTx.TxIn[k.Intn(len(tx.MsgTx.TxIn))].Sequence ^= 0x55
			}
		}
		pre := k.traceState("before signing", tx)
		keys := k.withStrangers(k.neededKeys(pre))
		var err error
		k.Call("Sign", func() { _, err = tx.Sign(keys) })
		post := k.traceState("after signing", tx)
		k.Tracef("  result: %v", err)
		judge(sg, pre, post, err)
		if len(post.outs) != len(pre.outs) {
			sg.addedForFee = len(post.outs) > len(pre.outs)
			sg.addedByFunding = false
		}
		if err != nil {
			return
		}
	}
}

func judgeC06(k *K, sg *signable, pre, post *snap, err error) {
	if err != nil {
		k.Skip("signing refused")
		return
	}
	second := k.Intn(4) == 0
	verr := post.allUnlocked(sg.tx.MsgTx, second)
	k.Check("every input unlocked", verr == nil, "signing succeeded but %v", verr)
	if second {
		k.Event("interpreter agreed")
	}
	k.Check("reported as signed", sg.tx.AllInputsAreSigned(), "signing succeeded but not all inputs are reported as signed")
	k.Distinct("%s ins%d outs%d%+d fee%+d rem%v change%v %s", post.kinds(), bucket(len(pre.ins)), bucket(len(pre.outs)),
		len(post.outs)-len(pre.outs), sign(post.fee()-pre.fee()), pre.remainder() >= 0, len(pre.change) > 0, rateClass(pre.feeRate))
	k.Sample(map[string]interface{}{"before": pre.brief(), "after": post.brief(), "fee": post.fee()})
}

func sign(n int64) int {
	if n > 0 {
		return 1
	} else if n < 0 {
		return -1
	}
	return 0
}

func changeCost(script []byte, rate float32) (out, in uint64) {
	out = ceilFee(outSize(script), rate)
	if is, ok := inSize(script); ok {
		in = ceilFee(is, rate)
	}
	return
}

func judgeC07(k *K, sg *signable, pre, post *snap, err error) {
	rate := pre.feeRate
	r := pre.remainder()
	nonRem := uint64(0)
	for i := range pre.outs {
		if !pre.outs[i].remainder {
			nonRem += pre.outs[i].value
		}
	}
	switch errors.Cause(err) {
	case nil:
	case txb.ErrInsufficientValue:
		if pre.remainders() > 1 {
			k.Skip("value lacking with several remainders")
			return
		}
		need := nonRem + pre.estFee()
		if r >= 0 {
			o, i := changeCost([]byte(pre.outs[r].script), rate)
			need += o + i
		}
		k.Check("value was lacking", pre.inValue() < need, "insufficient value reported although the inputs worth %d cover payments, fee and remainder of %d (%s)",
			pre.inValue(), need, err)
		k.Distinct("insufficient ins%d outs%d rem%v %s", bucket(len(pre.ins)), bucket(len(pre.outs)), r >= 0, rateClass(rate))
		return
	case txb.ErrChangeAddressNeeded:
		left := pre.fee() - int64(pre.estFee())
		k.Check("change destination asked for", len(pre.change) == 0 && r < 0 && left > int64(ceilFee(34, rate)),
			"a change destination was demanded with destination %x, remainder at %d, %d left over", pre.change, r, left)
		return
	default:
		k.Fail("other failure", "signing failed with: %v", err)
	}

	size := len(encodeTx(sg.tx.MsgTx))
	target := ceilFee(size, rate)
	fee := post.fee()
	k.Check("fee at the rate", fee >= int64(target), "signed transaction of %d bytes pays %d, below %d", size, fee, target)
	excess := uint64(fee) - target
	tol := target / 20
	if tol < 3 {
		tol = 3
	}
	if post.remainder() >= 0 && len(post.outs) >= len(pre.outs) {
		k.Check("fee close to the rate", excess <= tol+1, "signed transaction of %d bytes pays %d, %d more than the rate asks for", size, fee, excess)
	} else {
		var bound uint64
		if r >= 0 {
			o, i := changeCost([]byte(pre.outs[r].script), rate)
			bound = 2*o + i
		}
		if len(pre.change) > 0 {
			o, i := changeCost([]byte(pre.change), rate)
			if b := 2*o + i; b > bound {
				bound = b
			}
		} else if b := ceilFee(34, rate) + ceilFee(68, rate) + ceilFee(298, rate); b > bound {
			bound = b
		}
		bound += tol + ceilFee(4, rate) + 2
		k.Check("no change left to the miner", excess <= bound, "signed transaction pays %d, %d more than the rate asks for; at most %d is too small for change", fee, excess, bound)
	}

	// nothing but change is touched
	a, b := pre.clone(), post.clone()
	for i := range a.ins {
		a.ins[i].unlock = ""
	}
	for i := range b.ins {
		b.ins[i].unlock = ""
	}
	removed := false
	switch len(b.outs) - len(a.outs) {
	case 0:
	case 1:
		n := len(a.outs)
		k.Check("change appears", r < 0 && len(pre.change) > 0, "an output was added although remainder is at %d and the change destination is %x", r, pre.change)
		a.outs = append(a.outs, snapOut{script: pre.change, value: b.outs[n].value, remainder: true, keyID: pre.changeKey})
	case -1:
		k.Check("change disappears", r >= 0 && (sg.addedForFee || sg.addedByFunding), "an output disappeared although the library did not add it")
		a.outs = append(a.outs[:r:r], a.outs[r+1:]...)
		removed = true
	}
	for i := range a.outs {
		if i < len(b.outs) && a.outs[i].remainder {
			a.outs[i].value = b.outs[i].value
		}
	}
	d := a.diff(b)
	k.Check("only change touched", d == "", "signing changed %s", d)
	k.Distinct("ok ins%d outs%d%+d fee%+d rem%d byfee%v change%v %s removed%v", bucket(len(pre.ins)), bucket(len(pre.outs)),
		len(post.outs)-len(pre.outs), sign(post.fee()-pre.fee()), pre.remainders(), sg.addedForFee, len(pre.change) > 0, rateClass(rate), removed)
	k.Sample(map[string]interface{}{"before": pre.brief(), "after": post.brief(), "signed_size": size, "fee": fee, "fee_at_rate": target})
}

// satisfiable tells whether a set of keys (by pool number) can sign for a script.
func satisfiable(script []byte, have map[int]bool) bool {
	l := lockOfScript(script)
	n := 0
	for _, ki := range l.keys {
		if have[ki.n] {
			n++
		}
	}
	return n >= l.required
}

// usedKeys lists the pool keys whose signatures an unlocking script contains.
func usedKeys(lockScript, unlocking []byte) map[int]bool {
	r := map[int]bool{}
	c := classify(lockScript)
	if c.kind == "p2pk" {
		v, _ := keyByPub.Load(string(c.hashes[0]))
		r[v.(*keyInfo).n] = true
		return r
	}
	items, _ := pushes(unlocking)
	for _, it := range items {
		if len(it) == 33 {
			if v, ok := keyByPub.Load(string(it)); ok {
				r[v.(*keyInfo).n] = true
			}
		}
	}
	return r
}

func partialCase(k *K) {
	sg := k.genSignable()
	tx := sg.tx
	for len(tx.Inputs) < 2 {
		if err := tx.AddInputUTXO(k.utxo(k.lockSpendable(), k.value())); err != nil {
			k.Fail("setup", "adding an input was refused: %s", err)
		}
	}
	if k.Intn(3) != 0 {
		tx.Inputs[0].Value += uint64(k.Intn(10000000)) // mostly well funded
	}
	if k.Intn(2) == 0 && len(tx.ChangeScript) == 0 {
		tx.ChangeScript = k.lockSpendable().script
	}
	start := takeSnap(tx)

	// deal the keys out to holders
	need := k.neededKeys(start)
	holders := 1 + k.Intn(4)
	sets := make([]map[int]bool, holders)
	for i := range sets {
		sets[i] = map[int]bool{}
	}
	byNum := func(key bitcoin.Key) int {
		v, ok := keyByPub.Load(string(key.PublicKey().Bytes()))
		if !ok {
			k.Fail("keys used", "a key was returned that was never given")
		}
		return v.(*keyInfo).n
	}
	if k.Intn(2) == 0 {
		// by input, so that multi-signature inputs can be completed by one holder
		for i := range start.ins {
			l := lockOfScript([]byte(start.ins[i].lock))
			h := sets[k.Intn(holders)]
			n := 0
			for _, key := range need {
				for _, ki := range l.keys {
					if ki.n == byNum(key) {
						h[ki.n] = true
						n++
					}
				}
			}
		}
	} else {
		for _, key := range need {
			sets[k.Intn(holders)][byNum(key)] = true
		}
	}
	feeSet := false
	if k.Intn(3) == 0 {
		var err error
		k.Call("CalculateFee", func() { err = tx.CalculateFee() })
		feeSet = err == nil
	}

	// unlocking scripts from elsewhere or from before the last edit
	stale := map[int]string{}
	if k.Intn(4) == 0 {
		for i := range tx.MsgTx.TxIn {
			if k.Intn(3) != 0 {
				continue
			}
			n := 1
			if k.Intn(2) == 0 {
				n = 1 + k.Intn(120)
			}
			tx.MsgTx.TxIn[i].UnlockingScript = k.bytes(n)
			stale[i] = string(tx.MsgTx.TxIn[i].UnlockingScript)
		}
	}
	resigned := false

	for h := 0; h < holders; h++ {
		var keys []bitcoin.Key
		for n := 0; n < poolSize; n++ {
			if sets[h][n] {
				keys = append(keys, poolKey(n).key)
			}
		}
		keys = k.withRepeats(keys)
		full := (h == 0 || k.Intn(8) == 0) && !feeSet
		pre := k.traceState("before signing", tx)
		var got []bitcoin.Key
		var err error
		if full {
			k.Call("Sign", func() { got, err = tx.Sign(keys) })
		} else {
			k.Call("SignOnly", func() { got, err = tx.SignOnly(keys) })
		}
		post := k.traceState("after signing", tx)
		cause := errors.Cause(err)
		k.Tracef("  holder %d keys %d full %v -> %d keys, %v", h, len(keys), full, len(got), err)
		if full && (cause == txb.ErrInsufficientValue || cause == txb.ErrChangeAddressNeeded) {
			k.Skip("not funded")
			return
		}
		if cause != nil && cause != txb.ErrMissingPrivateKey {
			k.Fail("other failure", "signing failed with: %v", err)
		}
		missing := false
		used := map[int]bool{}
		for i := range pre.ins {
			if !full && len(pre.ins[i].unlock) > 0 {
				k.Check("signed inputs skipped", post.ins[i].unlock == pre.ins[i].unlock, "input %d was signed already and got another unlocking script", i)
				continue
			}
			if !satisfiable([]byte(pre.ins[i].lock), sets[h]) {
				missing = true
				if len(pre.ins[i].unlock) > 0 {
					k.Decide("signed before and not to be signed now")
					resigned = true
				}
				k.Check("unsatisfied inputs left alone", post.ins[i].unlock == pre.ins[i].unlock,
					"input %d cannot be signed with these keys but its unlocking script changed to %s", i, shortHex(post.ins[i].unlock))
				continue
			}
			verr := signedAll(tx.MsgTx, i, []byte(post.ins[i].lock), post.ins[i].value)
			k.Check("satisfied inputs signed", verr == nil, "input %d: %v", i, verr)
			for n := range usedKeys([]byte(pre.ins[i].lock), []byte(post.ins[i].unlock)) {
				used[n] = true
			}
		}
		k.Check("missing key reported truthfully", missing == (cause == txb.ErrMissingPrivateKey),
			"keys are missing: %v, reported: %v", missing, err)
		seen := map[int]bool{}
		for _, key := range got {
			n := byNum(key)
			if seen[n] {
				k.Fail("keys used", "key %d is returned twice", n)
			}
			seen[n] = true
			if !used[n] {
				k.Fail("keys used", "key %d is returned but was not used", n)
			}
		}
		k.Check("keys used", len(seen) == len(used), "%d keys were used, %d returned", len(used), len(seen))
		if !full {
			a, b := pre.clone(), post.clone()
			for i := range a.ins {
				if len(a.ins[i].unlock) == 0 {
					b.ins[i].unlock = ""
				}
			}
			d := a.diff(b)
			k.Check("signing only signs", d == "", "signing without fee adjustment changed %s", d)
		}
		k.Distinct("holder%d of %d full%v %s missing%v used%d", h, holders, full, pre.kinds(), missing, bucket(len(used)))
	}

	post := takeSnap(tx)
	all := true
	for i := range post.ins {
		if len(post.ins[i].unlock) == 0 {
			all = false
		}
	}
	for i, s := range stale {
		if post.ins[i].unlock == s {
			all = false
		}
	}
	if !all || resigned {
		k.Skip("never completed")
		return
	}
	verr := post.allUnlocked(tx.MsgTx, k.Intn(6) == 0)
	k.Check("completed by all holders", verr == nil, "after all holders have signed: %v", verr)
	size := len(encodeTx(tx.MsgTx))
	k.Check("completed pays the rate", post.fee() >= int64(ceilFee(size, post.feeRate)), "completed transaction of %d bytes pays %d, below %d",
		size, post.fee(), ceilFee(size, post.feeRate))
	if holders > 1 {
		k.Distinct("completed by %d %s rem%v", holders, post.kinds(), post.remainder() >= 0)
		k.Sample(map[string]interface{}{"holders": holders, "completed": post.brief(), "signed_size": size, "fee": post.fee()})
	}
}

// near is a hash that differs from the given one in a single bit.
func (k *K) near(hash []byte) []byte {
	r := append([]byte(nil), hash...)
	at := k.Intn(len(r))
	switch k.Intn(4) {
	case 0:
		at = 0
	case 1:
		at = len(r) - 1
	}
	r[at] ^= 1 << uint(k.Intn(8))
	return r
}

// lockNear is a script nobody can unlock because it takes keys that are almost the given ones.
func (k *K) lockNear() lock {
	if k.Intn(2) == 0 {
		ki := k.key()
		return lock{p2pkhScript(k.near(ki.pkh)), "near p2pkh", []*keyInfo{ki}, 1}
	}
	l := k.lockMulti()
	l.kind = "near multi"
	for _, i := range k.Perm(len(l.keys))[:len(l.keys)-l.required+1] {
		l.script = bytes.Replace(l.script, l.keys[i].pkh, k.near(l.keys[i].pkh), 1)
	}
	return l
}

// nearCase signs with keys that are almost the right ones.
func nearCase(k *K) {
	tx := txb.NewTxBuilder(k.rate(), k.dustRate())
	var locks []lock
	sets := map[int]bool{}
	n := 1 + k.Intn(4)
	for i := 0; i < n; i++ {
		l := k.lockSpendable()
		if i == 0 || k.Intn(3) == 0 {
			l = k.lockNear()
		}
		locks = append(locks, l)
		for _, ki := range l.keys {
			sets[ki.n] = true
		}
	}
	k.Shuffle(n, func(i, j int) { locks[i], locks[j] = locks[j], locks[i] })
	for _, l := range locks {
		if err := tx.AddInputUTXO(k.utxo(l, 1000000000000+k.value())); err != nil {
			k.Fail("setup", "adding an input was refused: %s", err)
		}
	}
	tx.ChangeScript = k.lockP2PKH().script
	var keys []bitcoin.Key
	for i := 0; i < poolSize; i++ {
		if sets[i] {
			keys = append(keys, poolKey(i).key)
		}
	}
	keys = k.withRepeats(keys)
	full := k.Intn(2) == 0
	pre := k.traceState("before signing", tx)
	var err error
	if full {
		k.Call("Sign", func() { _, err = tx.Sign(keys) })
	} else {
		k.Call("SignOnly", func() { _, err = tx.SignOnly(keys) })
	}
	post := k.traceState("after signing", tx)
	k.Tracef("  %d keys, full %v -> %v", len(keys), full, err)
	k.Check("near keys are missing", errors.Cause(err) == txb.ErrMissingPrivateKey, "no key given is one that is needed, signing gave: %v", err)
	for i := range pre.ins {
		if satisfiable([]byte(pre.ins[i].lock), sets) {
			verr := signedAll(tx.MsgTx, i, []byte(post.ins[i].lock), post.ins[i].value)
			k.Check("satisfied inputs signed", verr == nil, "input %d: %v", i, verr)
		} else {
			k.Check("unsatisfied inputs left alone", post.ins[i].unlock == "", "input %d cannot be signed with these keys but got %s", i, shortHex(post.ins[i].unlock))
		}
	}
	k.Distinct("near of %d full%v %s", n, full, pre.kinds())
}

func singleCase(k *K) {
	st := k.genState(stateOpts{remainders: 1, unlockData: true, lockIn: func() lock {
		switch k.Intn(10) {
		case 5:
			// all but a bit of the key's hash
			ki := k.key()
			return lock{p2pkhScript(k.near(ki.pkh)), "p2pkh", []*keyInfo{ki}, 1}
		case 0:
			return k.lockP2PK()
		case 1:
			return k.lockMulti()
		case 2:
			return k.lockAgent()
		case 3:
			return k.lockUnknown()
		case 4:
			// other address types
			h := k.bytes(20)
			if k.Intn(2) == 0 {
				return lock{append(append([]byte{0xa9, 20}, h...), 0x87), "p2sh", nil, 0}
			}
			ki := k.key()
			return lock{append(append([]byte{0x76, 0xa9, 20}, ki.pkh...), 0x88), "almost", []*keyInfo{ki}, 1}
		}
		return k.lockP2PKH()
	}})
	tx := st.tx
	for len(tx.Inputs) < 1 {
		k.addInput(st, k.lockP2PKH(), k.value())
	}
	if k.Intn(80) == 0 {
		for n := k.boundaryCount(); len(tx.Inputs) < n; {
			k.addInput(st, k.lockP2PKH(), k.value())
		}
	}
	n := len(tx.Inputs)
	cache := &txb.SigHashCache{}
	shared := k.Intn(2) == 0
	for step := 0; step < 4; step++ {
		index := k.Intn(n)
		if k.Intn(6) == 0 {
			index = n + k.Intn(4)
			if k.Intn(3) == 0 {
				index = n
			}
		}
		ki := k.key()
		kind := "past the end"
		if index < n {
			l := st.locks[index]
			kind = classify(l.script).kind
			if len(l.keys) > 0 && k.Intn(4) != 0 {
				ki = l.keys[k.Intn(len(l.keys))]
			}
		}
		if !shared {
			cache = &txb.SigHashCache{}
		}
		pre := k.traceState("before signing", tx)
		var err error
		k.Call("SignP2PKHInput", func() { err = tx.SignP2PKHInput(index, ki.key, cache) })
		post := k.traceState("after signing", tx)
		k.Tracef("  input %d (%s) of %d with key %d -> %v", index, kind, n, ki.n, err)
		cause := errors.Cause(err)
		if kind == "p2pkh" && bytes.Equal(classify([]byte(pre.ins[index].lock)).hashes[0], ki.pkh) {
			k.Check("right key accepted", err == nil, "the right key was refused: %v", err)
			verr := signedAll(tx.MsgTx, index, []byte(pre.ins[index].lock), pre.ins[index].value)
			k.Check("validly signed", verr == nil, "input %d: %v", index, verr)
			a := pre.clone()
			a.ins[index].unlock = post.ins[index].unlock
			d := a.diff(post)
			k.Check("only that input", d == "", "signing input %d changed %s", index, d)
		} else {
			k.Check("refused", err != nil, "signing input %d (%s) of %d with key %d succeeded", index, kind, n, ki.n)
			switch kind {
			case "p2pkh":
				k.Check("wrong key reported", cause == txb.ErrWrongPrivateKey, "wrong key reported as: %v", err)
			case "past the end":
				k.Check("position reported", cause != txb.ErrWrongPrivateKey && cause != txb.ErrWrongScriptTemplate, "position past the end reported as: %v", err)
			case "p2pk", "multi":
				// more than 16 signers are not an address to the address parser
				k.Check("wrong script reported", cause == txb.ErrWrongScriptTemplate || cause == bitcoin.ErrUnknownScriptTemplate,
					"wrong script type reported as: %v", err)
			default:
				k.Check("unknown script reported", cause != txb.ErrWrongPrivateKey, "unsupported script reported as: %v", err)
			}
			d := pre.diff(post)
			k.Check("refusal changes nothing", d == "", "the refused call changed %s", d)
		}
		k.Distinct("%s of %d at %d step%d shared%v ok%v", kind, bucket(n), bucket(index), step, shared, err == nil)
		k.Sample(map[string]interface{}{"script": kind, "inputs": n, "position": index, "shared_cache": shared, "result": fmt.Sprint(err)})
	}
}

func estimateCase(k *K) {
	st := k.genState(stateOpts{many: true, remainders: 1, lockIn: func() lock {
		if k.Intn(6) == 0 {
			// unlocking scripts around the one byte/three byte length
			m := 1 + k.Intn(3)
			n := 253 - 109*m + m + k.Intn(5) - 2
			if m == 1 || n > poolSize || n < m {
				m = 2
				n = 34 + k.Intn(5)
			}
			ks := k.keys(n)
			var pkhs [][]byte
			for _, ki := range ks {
				pkhs = append(pkhs, ki.pkh)
			}
			return lock{multiScript(m, pkhs), "multi", ks, m}
		}
		return k.lockSpendable()
	}})
	tx := st.tx
	for len(tx.Inputs) == 0 || k.Intn(3) == 0 {
		k.addInput(st, k.lockSpendable(), k.value())
	}
	pre := k.traceState("before signing", tx)
	var est int
	k.Call("EstimatedSize", func() { est = tx.EstimatedSize() })
	var estFee uint64
	k.Call("EstimatedFee", func() { estFee = tx.EstimatedFee() })
	k.Check("estimated fee", estFee == ceilFee(est, tx.FeeRate), "estimated fee is %d for %d bytes at %v", estFee, est, tx.FeeRate)
	keys := k.withStrangers(k.neededKeys(pre))
	if len(tx.Inputs) > 60 && k.Intn(4) != 0 {
		// signing hundreds of inputs takes long; compare with the reference alone
		k.Check("estimate follows the script types", est == pre.estSize(), "estimated %d bytes, the script types add up to %d", est, pre.estSize())
		k.Distinct("ref ins%d outs%d", len(pre.ins), len(pre.outs))
		return
	}
	var err error
	k.Call("SignOnly", func() { _, err = tx.SignOnly(keys) })
	if err != nil {
		k.Fail("other failure", "signing failed with: %v", err)
	}
	size := len(encodeTx(tx.MsgTx))
	sigs := 0
	for i := range pre.ins {
		sigs += classify([]byte(pre.ins[i].lock)).required
	}
	k.Check("upper bound", est >= size, "estimated %d bytes, signed %d", est, size)
	k.Check("tight", est-size <= 9*sigs+2*len(pre.ins), "estimated %d bytes, signed %d with %d signatures", est, size, sigs)
	if sigs > 20 {
		// the average signature is less than three bytes below the largest
		k.Check("tight on average", est-size <= 3*sigs+2*len(pre.ins), "estimated %d bytes, signed %d with %d signatures", est, size, sigs)
	}
	var after int
	k.Call("EstimatedSize", func() { after = tx.EstimatedSize() })
	k.Check("estimate independent of signatures", after == est, "estimate %d before and %d after signing", est, after)
	k.Distinct("%s ins%d outs%d sigs%d", pre.kinds(), bucket(len(pre.ins)), bucket(len(pre.outs)), sigs)
	k.Sample(map[string]interface{}{"transaction": pre.brief(), "estimated": est, "signed": size, "signatures": sigs})
}

func unlockDataCase(k *K) {
	st := k.genState(stateOpts{many: k.Intn(4) == 0, lockIn: k.lockSized})
	tx := st.tx
	for n := 1 + k.Intn(4); n > 0; n-- {
		size := []uint64{0, 1, 74, 108, 250, 251, 252, 253, 254, 300, 65535, 65536}[k.Intn(12)]
		k.addDataInput(st, size, k.value()+1)
	}
	pre := k.traceState("with unlocking data", tx)
	var est int
	k.Call("EstimatedSize", func() { est = tx.EstimatedSize() })
	k.Check("stated size used", est == pre.estSize(), "estimated %d bytes, the script types and stated sizes add up to %d", est, pre.estSize())
	k.Distinct("data %s ins%d size%d", pre.kinds(), len(pre.ins), est)
}

var _ = wire.MsgTx{}

func init() {
	rule := "Cases are drawn from the seed: 1-6 or ~252 inputs of pay-to-public-key-hash, pay-to-public-key and multi-signature scripts, outputs, remainder, change destination, the value of the inputs placed around each threshold of the fee and change decision, change outputs added for the fee before, keys shuffled with unrelated ones, signing again after an edit. "
	register("C06", rule+"Distinct counts combinations of script mix, size classes, how signing changed outputs and fee, rate class.", func(c *C) {
		c.Require("every input unlocked", 1000)
		c.Cases("sign", c.Pick(8000, 80000), func(k *K) {
			signCase(k, func(sg *signable, pre, post *snap, err error) { judgeC06(k, sg, pre, post, err) })
		})
	})
	register("C07", rule+"Distinct counts combinations of size classes, outcome, how signing changed outputs and fee, rate class.", func(c *C) {
		c.Require("fee at the rate", 1000)
		c.Require("value was lacking", 100)
		c.Require("change appears", 100)
		c.Require("change disappears", 10)
		c.Cases("sign", c.Pick(15000, 150000), func(k *K) {
			signCase(k, func(sg *signable, pre, post *snap, err error) { judgeC07(k, sg, pre, post, err) })
		})
	})
	register("C08", rule+"The needed keys are dealt out to 1-4 holders by input or at random; the first signs with or without fee adjustment, the others mostly without; some inputs carry unlocking scripts of one byte and more from elsewhere or from before. Keys that are the needed ones but for a bit of their hash have to be reported as missing. Distinct counts combinations of holder, script mix, missing keys and completion.", func(c *C) {
		c.Require("missing key reported truthfully", 2000)
		c.Require("unsatisfied inputs left alone", 500)
		c.Require("completed pays the rate", 300)
		c.Require("signed before and not to be signed now", 300)
		c.Require("near keys are missing", 1000)
		c.Cases("partial", c.Pick(10000, 100000), partialCase)
		c.Cases("near", c.Pick(2000, 20000), nearCase)
	})
	register("C09", "Cases are drawn from the seed: inputs of every script type and of unknown ones, positions inside and past the end, right keys, keys of other inputs, unrelated keys and keys that are right but for a bit of the hash, a shared or a fresh hash cache, four calls per transaction. Distinct counts combinations of script type, position and outcome.", func(c *C) {
		c.Require("validly signed", 1000)
		c.Require("wrong key reported", 300)
		c.Require("wrong script reported", 300)
		c.Require("position reported", 300)
		c.Cases("single", c.Pick(15000, 150000), singleCase)
	})
	register("C10", "Cases are drawn from the seed: any mix of inputs including multi-signature scripts whose unlocking script is around 252 bytes, counts around 252, outputs across length prefixes; estimated, then signed without fee adjustment. Inputs known by unlocking data are compared with the stated size. Distinct counts combinations of script mix, counts and number of signatures.", func(c *C) {
		c.Require("upper bound", 1000)
		c.Require("stated size used", 500)
		c.Cases("estimate", c.Pick(6000, 60000), estimateCase)
		c.Cases("unlocking data", c.Pick(3000, 30000), unlockDataCase)
	})
}
