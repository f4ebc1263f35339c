package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/tokenized/pkg/bitcoin"
	txb "github.com/tokenized/txbuilder"
)

// part is one output of a broken value, with what it costs.
type part struct {
	script string
	value  uint64
	keyID  string
	rem    bool
	dust   bool
}

func parts(outs []*txb.Output) []part {
	r := make([]part, len(outs))
	for i, o := range outs {
		r[i] = part{string(o.TxOut.LockingScript), o.TxOut.Value, o.Supplement.KeyID, o.Supplement.IsRemainder, o.Supplement.IsDust}
	}
	return r
}

func breakValueCase(k *K) {
	n := 1 + k.Intn(8)
	switch k.Intn(10) {
	case 0:
		n = 1
	case 1:
		n = 2
	case 2:
		n = 20 + k.Intn(60)
	case 3:
		if k.Intn(4) == 0 {
			n = 245 + k.Intn(200)
		}
	}
	useScripts := k.Intn(2) == 0
	addrs, scripts := k.changeAddresses(n, nil)
	repeats := k.Intn(8) == 0
	seen := map[string]bool{}
	for i := range scripts {
		if useScripts && k.Intn(6) == 0 {
			// destinations without an address form
			scripts[i] = k.lockOutput().script
		}
		if i > 0 && repeats && k.Intn(3) == 0 {
			// the same destination again
			j := i - 1
			if k.Intn(2) == 0 {
				j = k.Intn(i)
			}
			scripts[i], addrs[i].Address = scripts[j], addrs[j].Address
			k.Decide("repeated destination")
			continue
		}
		for seen[string(scripts[i])] {
			l, ra := k.lockAddress()
			scripts[i] = l.script
			addrs[i].Address = ra
		}
		seen[string(scripts[i])] = true
	}
	rate := k.rate()
	switch k.Intn(10) {
	case 0:
		rate = 0
	case 1:
		rate = 0.0001
	}
	bv := k.breakValue()
	subtract := k.Intn(2) == 0
	mark := k.Intn(3) != 0

	cost := func(script []byte) (out, in uint64) {
		out = ceilFee(outSize(script), rate)
		if s, ok := inSize(script); ok {
			in = ceilFee(s, rate)
		}
		return
	}
	out0, in0 := cost(scripts[0])
	var value uint64
	near := func(c uint64) uint64 {
		d := uint64(k.Intn(9))
		if c+d < 4 {
			return 0
		}
		return c + d - 4
	}
	all := uint64(0) // what having every destination costs
	for _, s := range scripts {
		o, i := cost(s)
		all += o + i
	}
	switch k.Intn(11) {
	case 0:
		value = near(out0)
	case 1:
		value = near(in0)
	case 2:
		value = near(out0 + in0)
	case 3:
		value = near(bv)
	case 4:
		value = near(bv + out0 + in0)
	case 5, 6:
		// some multiple of what the destinations hold
		value = uint64(k.Int63n(int64(bv)*int64(n)*10 + 100))
	case 7:
		value = uint64(k.Int63n(int64(bv)*int64(n)*2000 + 100))
	case 8:
		total := uint64(0)
		for _, s := range scripts[:1+k.Intn(n)] {
			o, _ := cost(s)
			total += o + bv
		}
		value = near(total)
	case 9:
		// plenty for every destination
		value = all + bv*uint64(n)*10000 + uint64(k.Int63n(int64(bv)*int64(n)*20000))
	default:
		value = k.value()
	}
	k.Tracef("value %d break value %d rate %v, %d destinations, scripts %v, fees taken out %v, mark remainder %v",
		value, bv, rate, n, useScripts, subtract, mark)

	var outs []*txb.Output
	var err error
	if useScripts {
		k.Call("BreakValueLockingScripts", func() {
			outs, err = txb.BreakValueLockingScripts(value, bv, scripts, k.dustRate(), rate, mark, subtract)
		})
	} else {
		k.Call("BreakValue", func() {
			outs, err = txb.BreakValue(value, bv, addrs, k.dustRate(), rate, mark, subtract)
		})
	}
	if err != nil {
		k.Fail("refused", "breaking the value failed: %v", err)
	}
	ps := parts(outs)
	k.Tracef("outputs: %d", len(ps))
	for i, p := range ps {
		if i < 12 {
			k.Tracef("  %d to %s key %q remainder %v", p.value, shortHex(p.script), p.keyID, p.rem)
		}
	}

	k.Check("number of outputs", len(ps) <= n, "%d outputs for %d destinations", len(ps), n)
	limit := in0
	if subtract {
		limit += out0
	}
	if len(ps) == 0 {
		k.Check("nothing only for too little", value <= limit, "nothing came of %d although a single output needs %d", value, limit)
		k.Distinct("nothing sub%v scripts%v", subtract, useScripts)
		return
	}
	sum, fee := uint64(0), uint64(0)
	where := map[string][]int{}
	for i, s := range scripts {
		where[string(s)] = append(where[string(s)], i)
	}
	used := make([]int, n)
	marked, small, smallUnmarked := 0, 0, 0
	for _, p := range ps {
		at := where[p.script]
		k.Check("known destination", len(at) > 0, "an output pays to %x which is not a destination", p.script)
		i := at[0]
		for _, j := range at {
			// one of the same ones that has not been used yet, by its identifier if possible
			if used[j] == 0 && (used[i] > 0 || !useScripts && addrs[j].KeyID == p.keyID && addrs[i].KeyID != p.keyID) {
				i = j
			}
		}
		used[i]++
		if !useScripts {
			k.Check("key identifier", p.keyID == addrs[i].KeyID, "output to destination %d has key identifier %q, should be %q", i, p.keyID, addrs[i].KeyID)
		} else {
			k.Check("key identifier", p.keyID == "", "output to a script has key identifier %q", p.keyID)
		}
		sum += p.value
		if subtract {
			o, _ := cost([]byte(p.script))
			fee += o
		}
		if p.rem {
			marked++
		}
		if p.value*10 < bv*9 {
			small++
			if !p.rem {
				smallUnmarked++
			}
		}
	}
	k.Check("exact sum", sum+fee == value, "outputs %d and fees %d do not add up to %d", sum, fee, value)
	for i, u := range used {
		want := 0
		if i < len(ps) {
			want = 1
		}
		k.Check("destinations from the front", u == want, "destination %d of %d is used %d times by %d outputs", i, n, u, len(ps))
	}
	wantMarked := 0
	if mark {
		wantMarked = 1
	}
	k.Check("remainder marking", marked == wantMarked, "%d of %d outputs are marked as the remainder, should be %d", marked, len(ps), wantMarked)
	if mark {
		k.Check("no output too small", smallUnmarked == 0, "%d outputs other than the remainder are worth less than nine tenths of %d", smallUnmarked, bv)
	} else {
		k.Check("no output too small", small <= 1, "%d outputs are worth less than nine tenths of %d", small, bv)
	}
	if value >= all+bv*uint64(n)*10000 {
		k.Check("every destination used", len(ps) == n, "%d is plenty for %d outputs of about %d but there are %d", value, n, bv, len(ps))
	}
	if len(ps) > 1 {
		k.Check("several outputs", true, "")
	}
	k.Distinct("outs%d of %d sub%v scripts%v mark%v rate%s bv%d small%d", len(ps), n, subtract, useScripts, mark, rateClass(rate), bv, small)
	k.Sample(map[string]interface{}{"value": value, "break_value": bv, "destinations": n, "rate": rate, "fees_taken_out": subtract, "outputs": len(ps), "sum": sum, "fees": fee})
}

func breakQuantityCase(k *K) {
	count := 1 + k.Intn(10)
	switch k.Intn(8) {
	case 0:
		count = 1
	case 1:
		count = 2
	case 2:
		count = 50 + k.Intn(300)
	}
	bv := k.breakValue()
	var value uint64
	switch k.Intn(8) {
	case 0:
		value = uint64(k.Intn(3))
	case 1:
		value = bv + uint64(k.Intn(3)) - 1
	case 2:
		value = bv*uint64(count) + uint64(k.Intn(3))
	case 3:
		value = uint64(k.Int63n(int64(bv) * 20))
	case 4:
		value = uint64(k.Int63n(1 << 52))
	default:
		value = uint64(k.Int63n(int64(bv)*int64(count)*int64([]int{1, 3, 10, 100, 1000, 30000}[k.Intn(6)]) + 10))
	}
	if k.Intn(5) == 0 { // quantities whose multiples come close to 64 bits
		value = ^uint64(0)>>uint(k.Intn(8)) - uint64(k.Int63n(1000))
		if k.Intn(2) == 0 {
			value = k.Uint64()
		}
		bv = 1 + value>>uint(k.Intn(16))
		switch k.Intn(4) {
		case 0:
			bv = 1 + k.Uint64()%value
		case 1:
			bv = ^uint64(0)/[]uint64{2, 5, 10, 20, 50, 100, 500, 5000}[k.Intn(8)] + uint64(k.Intn(5)) - 2
		case 2:
			bv = 1 << uint(k.Intn(64))
		}
		k.Decide("close to 64 bits")
	}
	k.Tracef("quantity %d break quantity %d count %d", value, bv, count)
	var got []uint64
	var err error
	k.Call("BreakQuantity", func() { got, err = txb.BreakQuantity(value, bv, count) })
	if err != nil {
		k.Fail("refused", "breaking the quantity failed: %v", err)
	}
	k.Tracef("parts %v", got)
	sum, small := uint64(0), 0
	for _, v := range got {
		k.Check("positive parts", v > 0, "a part is zero: %v", got)
		sum += v
		if v < bv-bv/10 {
			small++
		}
	}
	k.Check("exact sum", sum == value, "the parts add up to %d, should be %d: %v", sum, value, got)
	k.Check("number of parts", len(got) <= count+1, "%d parts for a count of %d", len(got), count)
	k.Check("no part too small", small <= 1, "%d parts are below nine tenths of %d: %v", small, bv, got)
	if value/bv/10000 >= uint64(count) {
		k.Check("broken up enough", len(got) >= count, "%d is plenty for %d parts of about %d but there are %d", value, count, bv, len(got))
	}
	if len(got) > 1 {
		k.Decide("several parts")
	}
	k.Distinct("parts%d count%d bv%d small%d", len(got), count, bv, small)
	k.Sample(map[string]interface{}{"quantity": value, "break_quantity": bv, "count": count, "parts": got})
}

// randomizeBuilder makes the same builder every time it is given the same number.
func (k *K) randomizeBuilder(seed int64) *txb.TxBuilder {
	sub := &K{Rand: rand.New(rand.NewSource(seed)), c: k.c, workload: k.workload, index: k.index,
		events: map[string]int{}, decided: map[string]int{}, skipped: map[string]int{}, trace: k.trace}
	tx := txb.NewTxBuilder([]float32{0.05, 0.5, 1}[sub.Intn(3)], sub.dustRate())
	for n := 1 + sub.Intn(3); n > 0; n-- {
		tx.AddInputUTXO(sub.utxo(sub.lockSpendable(), 100000000+uint64(sub.Intn(100000000))))
	}
	n := sub.Intn(8)
	if sub.Intn(30) == 0 {
		n = 253
	}
	for i := 0; i < n; i++ {
		l := sub.lockOutput()
		if n > 100 {
			l = sub.lockP2PKH()
		}
		tx.AddOutput(l.script, sub.outAmount(l.script, 5)%300000+100000, false, false)
		tx.Outputs[len(tx.Outputs)-1].KeyID = sub.ident()
		tx.Outputs[len(tx.Outputs)-1].IsDust = sub.Intn(4) == 0
	}
	if n > 0 && sub.Intn(4) == 0 {
		tx.Outputs[sub.Intn(n)].IsRemainder = true
	}
	if sub.Intn(2) == 0 {
		// a change output the library added for the fee
		tx.ChangeScript = sub.lockP2PKH().script
		tx.ChangeKeyID = sub.ident()
		tx.AdjustFee(-50000 - sub.Int63n(100000))
		if n > 0 && sub.Intn(2) == 0 {
			l := sub.lockOutput()
			tx.AddOutput(l.script, 200000, false, false)
		}
	}
	return tx
}

func (k *K) randomize(tx *txb.TxBuilder, after int) {
	if after < 0 {
		k.Call("RandomizeOutputs", func() { tx.RandomizeOutputs() })
	} else {
		k.Call("RandomizeOutputsAfter", func() { tx.RandomizeOutputsAfter(after) })
	}
}

func randomizeCase(k *K) {
	seed := k.Int63()
	tx := k.randomizeBuilder(seed)
	control := k.randomizeBuilder(seed)
	pre := k.traceState("builder", tx)
	d := pre.diff(k.Snap(control))
	if d != "" {
		k.Fail("control", "the same construction gave different builders: %s", d)
	}
	for r := 1 + k.Intn(3); r > 0; r-- {
		before := k.Snap(tx)
		after := -1
		if k.Intn(2) == 0 {
			after = k.Intn(len(before.outs) + 2)
			if k.Intn(4) == 0 && len(before.outs) > 1 {
				after = len(before.outs) - 2
			}
		}
		k.Tracef("randomize after %d of %d", after, len(before.outs))
		k.randomize(tx, after)
		got := k.Snap(tx)
		k.Check("permutation", permuted(before.outs, got.outs), "the outputs are not the same ones: %v -> %v", before.outs, got.outs)
		for i := 0; i <= after && i < len(before.outs); i++ {
			k.Check("prefix kept", before.outs[i] == got.outs[i], "output %d changed although only those after %d were to be randomized", i, after)
		}
		rest := got.clone()
		rest.outs = before.outs
		d := before.diff(rest)
		k.Check("rest kept", d == "", "something else changed: %s", d)
		k.Distinct("outs%d after%d rem%v", len(before.outs), after, before.remainder() >= 0)
	}
	// later fee adjustments
	amounts := []int64{1, -1, 1000, -100000}
	if r := pre.remainder(); r >= 0 {
		v := int64(pre.outs[r].value)
		amounts = append(amounts, v, v-1, v-20, v-500, v+1)
	}
	for n := 1 + k.Intn(3); n > 0; n-- {
		a := amounts[k.Intn(len(amounts))]
		var e1, e2 error
		var d1, d2 bool
		k.Call("AdjustFee", func() { d1, e1 = tx.AdjustFee(a) })
		k.Call("AdjustFee", func() { d2, e2 = control.AdjustFee(a) })
		p, q := k.Snap(tx), k.Snap(control)
		k.Tracef("adjust fee by %d: %v %v, not randomized %v %v", a, d1, e1, d2, e2)
		k.Check("same fee adjustment", (e1 == nil) == (e2 == nil) && d1 == d2 && permuted(p.outs, q.outs),
			"adjusting the fee by %d gives %v %v after randomizing and %v %v otherwise, %d and %d outputs", a, d1, e1, d2, e2, len(p.outs), len(q.outs))
		if len(p.outs) < len(pre.outs) {
			k.Decide("change removed after randomizing")
		}
	}
	k.Sample(map[string]interface{}{"builder": pre.brief(), "history": append([]string(nil), k.trace...)})
}

// orderCase sees whether every order comes up.
func orderCase(k *K) {
	n := 2 + k.index%3
	after := -1
	if k.index/3%2 == 1 {
		after = k.Intn(3)
	}
	total := n + after + 1
	tx := txb.NewTxBuilder(0.5, 1)
	for i := 0; i < total; i++ {
		tx.AddOutput(k.lockP2PKH().script, uint64(100000+i), false, false)
	}
	fact := 1
	for i := 2; i <= n; i++ {
		fact *= i
	}
	// The chance of missing one of 24 equally likely orders in 1500 tries is below 1e-26.
	seen := map[string]int{}
	fromStart := k.Intn(2) == 0
	for i := 0; i < 1500; i++ {
		c := tx
		if fromStart {
			cp := txb.NewTxBuilder(0.5, 1)
			for j := 0; j < total; j++ {
				cp.AddOutput(tx.MsgTx.TxOut[j].LockingScript, uint64(100000+j), false, false)
			}
			c = cp
		}
		k.randomize(c, after)
		b := &bytes.Buffer{}
		for _, o := range c.MsgTx.TxOut[after+1:] {
			fmt.Fprintf(b, "%d ", o.Value)
		}
		seen[b.String()]++
	}
	k.Check("every order", len(seen) == fact, "%d of %d orders of %d outputs after %d came up in 1500 tries: %v", len(seen), fact, n, after, seen)
	for o := range seen {
		k.Distinct("%d %v %s", after, fromStart, o)
	}
}

// longOrderCase randomizes a list that is too long for all of its orders to be counted. Every output
// has to come up at every position (each is expected 60 times).
func longOrderCase(k *K) {
	n := []int{5, 6, 8, 9, 12, 16, 17, 24, 33, 64, 130, 257}[k.index%12]
	after := -1
	if k.index/12%2 == 1 || k.Intn(2) == 0 && n < 130 {
		after = k.Intn(4)
	}
	first := after + 1
	tx := txb.NewTxBuilder(0.5, 1)
	for i := 0; i < n+first; i++ {
		tx.AddOutput(k.lockP2PKH().script, uint64(100000+i), false, false)
	}
	seen := make([]int, n*n)
	for t := 0; t < 60*n; t++ {
		if after < 0 {
			tx.RandomizeOutputs()
		} else {
			tx.RandomizeOutputsAfter(after)
		}
		for at, o := range tx.MsgTx.TxOut[first:] {
			which := int(o.Value) - 100000 - first
			if which < 0 || which >= n {
				k.Fail("kept in place", "output %d moved to position %d when those after %d were randomized", which+first, at+first, after)
			}
			seen[which*n+at]++
		}
	}
	never, example := 0, 0
	for i, count := range seen {
		if count == 0 {
			never++
			example = i
		}
	}
	k.Check("every output everywhere", never == 0, "%d of %d combinations of output and position never came up in %d tries with %d outputs after %d, such as output %d at position %d",
		never, n*n, 60*n, n, after, example/n, example%n)
	k.Distinct("positions of %d after %d", n, after)
}

// hidingCase breaks the same value many times and sees where each output turns up.
func hidingCase(k *K) {
	n := 2 + k.Intn(7)
	form := []string{"addresses", "scripts", "quantity", "funding"}[k.index%4]
	bv := []uint64{100, 1000, 777, 10000}[k.Intn(4)]
	rate := []float32{0.05, 0.25, 0.5}[k.Intn(3)]
	addrs, scripts := k.changeAddresses(n, map[string]bool{})
	ids := map[string]int{}
	for i, s := range scripts {
		if _, ok := ids[string(s)]; ok {
			k.Skip("same destination twice")
			return
		}
		ids[string(s)] = i
	}
	value := bv*uint64(n)*uint64(2+k.Intn(8)) + bv/2
	if k.Intn(3) == 0 {
		value *= []uint64{5, 40, 300}[k.Intn(3)]
	}
	if form == "quantity" && k.Intn(3) == 0 {
		value = bv*uint64(n)*1000000 + bv/2 // more than the parts can take up
	}
	var marked bool
	subtract := k.Intn(2) == 0
	if form != "quantity" {
		marked = form == "funding" || k.Intn(2) == 0
	}
	funding := k.utxo(k.lockP2PKH(), value)
	pay := k.lockP2PKH().script
	k.Tracef("%s: value %d break value %d over %d at rate %g, marked %v, fee taken out %v", form, value, bv, n, rate, marked, subtract)

	const tries = 1500
	type where struct{ outs, which, at int } // which is the remainder: -1, the largest part: -2, or a destination
	seen := map[where]int{}
	total := map[[2]int]int{}
	amounts := map[string]int{}
	for i := 0; i < tries; i++ {
		var outs []*txb.Output
		var parts []uint64
		var err error
		switch form {
		case "addresses":
			k.Call("BreakValue", func() { outs, err = txb.BreakValue(value, bv, addrs, 0, rate, marked, subtract) })
		case "scripts":
			k.Call("BreakValueLockingScripts", func() { outs, err = txb.BreakValueLockingScripts(value, bv, scripts, 0, rate, marked, subtract) })
		case "quantity":
			k.Call("BreakQuantity", func() { parts, err = txb.BreakQuantity(value, bv, n) })
		case "funding":
			tx := txb.NewTxBuilder(rate, 0)
			if err := tx.AddOutput(pay, 1000, false, false); err != nil {
				k.Fail("setup", "adding an output was refused: %s", err)
			}
			u := funding
			u.Value += 2000
			k.Call("AddFundingBreakChange", func() { err = tx.AddFundingBreakChange([]bitcoin.UTXO{u}, bv, addrs) })
			for j := 1; j < len(tx.MsgTx.TxOut) && err == nil; j++ {
				outs = append(outs, &txb.Output{TxOut: *tx.MsgTx.TxOut[j], Supplement: *tx.Outputs[j]})
			}
		}
		if err != nil {
			k.Fail("refused", "breaking failed: %v", err)
		}
		for _, o := range outs {
			parts = append(parts, o.TxOut.Value)
		}
		m := len(parts)
		if m < 2 {
			continue
		}
		for j, o := range outs {
			seen[where{m, ids[string(o.TxOut.LockingScript)], j}]++
			total[[2]int{m, ids[string(o.TxOut.LockingScript)]}]++
			if o.Supplement.IsRemainder {
				seen[where{m, -1, j}]++
				total[[2]int{m, -1}]++
			}
		}
		if form == "quantity" {
			// the part that was left over can be told when it is the only small one
			small := -1
			for j, v := range parts {
				if v*10 < bv*9 {
					small = j
				}
			}
			if small >= 0 {
				seen[where{m, -1, small}]++
				total[[2]int{m, -1}]++
			}
			// or when there is more of it than of any other part
			largest, only := 0, true
			for j, v := range parts {
				if j > 0 && v == parts[largest] {
					only = false
				} else if v > parts[largest] {
					largest, only = j, true
				}
			}
			if only {
				seen[where{m, -2, largest}]++
				total[[2]int{m, -2}]++
			}
		}
		sort.Slice(parts, func(a, b int) bool { return parts[a] < parts[b] })
		amounts[fmt.Sprint(parts)]++
	}
	costs := uint64(0) // of two parts
	for i := 0; i < 2 && form != "quantity"; i++ {
		in, _ := inSize(scripts[i])
		costs += ceilFee(outSize(scripts[i]), rate) + ceilFee(in, rate)
	}
	if len(amounts) == 0 {
		// In one of 24 tries or more the first part is the break value itself, or about that.
		k.Check("broken at all", value <= 3*bv+2*costs, "%d was never broken into more than one part of about %d in %d tries", value, bv, tries)
		k.Skip("never more than one part")
		return
	}
	k.Check("broken at all", true, "")
	for id, c := range total {
		m, which := id[0], id[1]
		// The chance of missing one of m equally likely positions in 60*m tries is below m*e^-60.
		if c < 60*m {
			k.Skip("not seen often enough")
			continue
		}
		name := "the remainder"
		if which == -2 {
			name = "the largest part"
		} else if which >= 0 {
			name = fmt.Sprintf("destination %d", which)
		}
		for j := 0; j < m; j++ {
			k.Check("every position", seen[where{m, which, j}] > 0, "%s never came up at position %d of %d in %d tries", name, j, m, c)
			k.Distinct("%s %s of %d at %d", form, name, m, j)
		}
		if which == -1 {
			k.Decide("remainder seen often")
		}
	}
	k.Check("amounts vary", len(amounts) > 1, "breaking %d over %d destinations gave the same amounts in %d tries: %v", value, n, tries, amounts)
	k.Sample(map[string]interface{}{"form": form, "value": value, "break_value": bv, "destinations": n, "different_amounts": len(amounts)})
}

func init() {
	register("C31", "Values and quantities are broken 1500 times with the same arguments, through each form and by funding with change to be broken up; for every number of parts that came up often enough each destination, the remainder and the largest part of a quantity have to be seen at every position, there has to be more than one part at least once, and the amounts have to differ. Distinct counts combinations of form, destination or remainder, number of parts and position.", func(c *C) {
		c.Require("every position", 500)
		c.Require("remainder seen often", 30)
		c.Require("amounts vary", 50)
		c.Require("broken at all", 50)
		c.CasesSerial("hiding", c.Pick(160, 1600), hidingCase)
	})
	register("C18", "Values around every threshold (fees of one output, break value, sums over the first destinations) and of every magnitude, also plenty for every destination, break values from 1, 1-444 destinations, some lists naming the same one several times, both forms and fee modes, drawn from the seed together with the library's random choices; sum, destinations, identifiers, marking, part sizes and the use of every destination when there is plenty are judged for every call. Distinct counts combinations of number of outputs and destinations, modes, rate, break value and small outputs.", func(c *C) {
		c.Require("exact sum", 20000)
		c.Require("nothing only for too little", 100)
		c.Require("several outputs", 5000)
		c.Require("every destination used", 2000)
		c.Require("repeated destination", 5000)
		c.CasesSerial("values", c.Pick(60000, 600000), breakValueCase)
	})
	register("C19", "Quantities, break quantities and counts around each threshold and of every magnitude drawn from the seed together with the library's random choices; every returned list is judged. Distinct counts combinations of number of parts, count, break quantity and small parts.", func(c *C) {
		c.Require("exact sum", 50000)
		c.Require("several parts", 10000)
		c.Require("broken up enough", 2000)
		c.Require("close to 64 bits", 5000)
		c.CasesSerial("quantities", c.Pick(150000, 1500000), breakQuantityCase)
	})
	register("C20", "Builders with 0-7 or 253 outputs, any markings and change added for the fee are randomized 1-3 times, wholly or after any position, and then adjusted like a twin that was not randomized; and every order of 2-4 outputs has to come up in 1500 tries, and each of 5-257 outputs at every position. Distinct counts combinations of number of outputs and position, and the orders seen.", func(c *C) {
		c.Require("permutation", 10000)
		c.Require("same fee adjustment", 10000)
		c.Require("change removed after randomizing", 100)
		c.Require("every order", 20)
		c.Require("every output everywhere", 10)
		c.CasesSerial("randomize", c.Pick(20000, 200000), randomizeCase)
		c.CasesSerial("orders", c.Pick(36, 360), orderCase)
		c.CasesSerial("long lists", c.Pick(12, 48), longOrderCase)
	})
}
