package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"sync"
	"time"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// anyOp is a call with fixed arguments whose outcome depends on the builder alone.
func (h *history) anyOp(s *snap) *editOp {
	k := h.k
	switch k.Intn(8) {
	case 0, 1:
		return h.refusableOp(s)
	case 2:
		var utxos []bitcoin.UTXO
		for n := k.Intn(4); n > 0; n-- {
			utxos = append(utxos, h.utxo(h.outpoint()))
		}
		return &editOp{name: "AddFunding", args: fmt.Sprintf("%d utxos", len(utxos)),
			run: func(tx *txb.TxBuilder) error { return tx.AddFunding(append([]bitcoin.UTXO(nil), utxos...)) }}
	case 3:
		var keys []bitcoin.Key
		for i := range s.ins {
			if l := lockOfScript([]byte(s.ins[i].lock)); k.Intn(6) != 0 {
				for _, ki := range l.keys {
					keys = append(keys, ki.key)
				}
			}
		}
		if len(keys) == 0 || len(keys) > 12 {
			return h.edit(s)
		}
		if k.Intn(2) == 0 {
			return &editOp{name: "SignOnly", args: fmt.Sprintf("%d keys", len(keys)),
				run: func(tx *txb.TxBuilder) error { _, err := tx.SignOnly(keys); return err }}
		}
		return &editOp{name: "Sign", args: fmt.Sprintf("%d keys", len(keys)),
			run: func(tx *txb.TxBuilder) error { _, err := tx.Sign(keys); return err }}
	}
	return h.edit(s)
}

// removalOp raises the fee until the remainder is used up, which shows whether it counts as added
// for the fee.
func (h *history) removalOp(s *snap) *editOp {
	amount := int64(1)
	if r := s.remainder(); r >= 0 && s.outs[r].value > 0 {
		amount = int64(s.outs[r].value)
	}
	return &editOp{name: "AdjustFee", args: fmt.Sprintf("%d", amount),
		run: func(tx *txb.TxBuilder) error { _, err := tx.AdjustFee(amount); return err }}
}

func answer(err error) string {
	if err == nil {
		return "done"
	}
	return err.Error()
}

// grow applies random calls to get a builder with some history.
func (h *history) grow(tx *txb.TxBuilder, steps int) {
	k := h.k
	for i := 0; i < steps; i++ {
		s := k.Snap(tx)
		o := h.anyOp(s)
		k.do(o, tx)
		if k.Intn(5) == 0 && len(tx.Outputs) > 0 {
			tx.Outputs[k.Intn(len(tx.Outputs))].KeyID = k.ident()
		}
		if k.Intn(8) == 0 {
			tx.ChangeScript = k.lockSpendable().script
			tx.ChangeKeyID = k.ident()
			if k.Intn(2) == 0 && k.Snap(tx).remainder() < 0 {
				k.Call("AdjustFee", func() { tx.AdjustFee(-100000 - k.Int63n(100000)) })
				k.Tracef("change added for the fee: %d outputs", len(tx.Outputs))
			}
		}
	}
}

// scribble overwrites every byte the builder can reach.
func scribble(tx *txb.TxBuilder) {
	flip := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xa5
		}
	}
	flip(tx.ChangeScript)
	for _, in := range tx.MsgTx.TxIn {
		flip(in.UnlockingScript)
		in.PreviousOutPoint.Hash[0] ^= 0xff
		in.PreviousOutPoint.Index++
		in.Sequence--
	}
	for _, o := range tx.MsgTx.TxOut {
		flip(o.LockingScript)
		o.Value++
	}
	for _, in := range tx.Inputs {
		flip(in.LockingScript)
		in.Value++
		in.KeyID += "x"
	}
	for _, o := range tx.Outputs {
		o.IsDust = !o.IsDust
		o.IsRemainder = !o.IsRemainder
		o.KeyID += "x"
	}
	for i := range tx.MsgTx.TxIn {
		tx.MsgTx.TxIn[i] = &wire.TxIn{}
	}
	for i := range tx.MsgTx.TxOut {
		tx.MsgTx.TxOut[i] = &wire.TxOut{}
	}
	for i := range tx.Inputs {
		tx.Inputs[i] = &txb.InputSupplement{}
	}
	for i := range tx.Outputs {
		tx.Outputs[i] = &txb.OutputSupplement{}
	}
	tx.MsgTx.Version++
	tx.MsgTx.LockTime++
	tx.FeeRate++
	tx.DustFeeRate++
	tx.SendMax = !tx.SendMax
}

// unshare gives every script of the builder its own memory, because the generator hands the same
// slices to several calls.
func unshare(tx *txb.TxBuilder) {
	own := func(s bitcoin.Script) bitcoin.Script {
		if s == nil {
			return nil
		}
		return append(make(bitcoin.Script, 0, len(s)+8), s...)
	}
	tx.ChangeScript = own(tx.ChangeScript)
	for _, in := range tx.MsgTx.TxIn {
		in.UnlockingScript = own(in.UnlockingScript)
	}
	for _, o := range tx.MsgTx.TxOut {
		o.LockingScript = own(o.LockingScript)
	}
	for _, in := range tx.Inputs {
		in.LockingScript = own(in.LockingScript)
	}
}

func copyCase(k *K) {
	h := k.newHistory(false)
	tx := k.startBuilder(h)
	tx.FeeRate = []float32{0.05, 0.5, 1}[k.Intn(3)]
	steps := 4 + k.Intn(16)
	if k.Intn(6) == 0 {
		steps = k.Intn(3)
	}
	h.grow(tx, steps)
	tx.SendMax = k.Intn(3) == 0
	if k.Intn(2) == 0 {
		tx.MsgTx.Version = int32(k.Uint32())
		tx.MsgTx.LockTime = k.Uint32()
	}
	unshare(tx)
	a := k.traceState("original", tx)
	var c txb.TxBuilder
	k.Call("Copy", func() { c = tx.Copy() })
	cp := &c
	if k.Intn(4) == 0 {
		// piecewise copies
		for i := range cp.Outputs {
			s := tx.Outputs[i].Copy()
			cp.Outputs[i] = &s
		}
		for i := range cp.Inputs {
			s := tx.Inputs[i].Copy()
			cp.Inputs[i] = &s
		}
	}
	b := k.Snap(cp)
	d := a.diff(b)
	k.Check("equal content", d == "", "the copy differs: %s", d)

	switch mode := k.Intn(4); mode {
	case 0:
		// raw writes on one side
		side, other, before := cp, tx, a
		if k.Intn(2) == 0 {
			side, other, before = tx, cp, b
		}
		enc := encodeTx(other.MsgTx)
		scribble(side)
		d := before.diff(k.Snap(other))
		k.Check("raw writes stay on their side", d == "" && bytes.Equal(enc, encodeTx(other.MsgTx)), "raw writes on one side changed the other: %s", d)
		k.Distinct("raw ins%d outs%d copy%v", len(a.ins), len(a.outs), side == cp)
	case 1:
		// both sides at the same time
		var ops [2][]*editOp
		var seq [2]*snap
		var log [2][]string
		// what each side does alone
		for s := 0; s < 2; s++ {
			alone := tx.Copy()
			for n := 2 + k.Intn(6); n > 0; n-- {
				o := h.anyOp(k.Snap(&alone))
				ops[s] = append(ops[s], o)
				log[s] = append(log[s], answer(k.do(o, &alone)))
			}
			seq[s] = k.Snap(&alone)
		}
		sides := [2]*txb.TxBuilder{tx, cp}
		var got [2][]string
		var panics [2]interface{}
		var wg sync.WaitGroup
		for s := 0; s < 2; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				p, _ := k.Try(func() {
					for _, o := range ops[s] {
						got[s] = append(got[s], answer(o.run(sides[s])))
					}
				})
				panics[s] = p
			}(s)
		}
		wg.Wait()
		for s := 0; s < 2; s++ {
			if panics[s] != nil {
				k.Fail("panic", "panic in concurrent use: %v", panics[s])
			}
			k.Check("same answers concurrently", fmt.Sprint(got[s]) == fmt.Sprint(log[s]), "answers %v alone, %v next to the other side", log[s], got[s])
			d := seq[s].diff(k.Snap(sides[s]))
			k.Check("same state concurrently", d == "", "alone -> next to the other side: %s", d)
		}
		k.Distinct("concurrent %s %s", ops[0][0].name, ops[1][0].name)
	default:
		// the same calls on both, in turn
		var names []string
		for n := 3 + k.Intn(8); n > 0; n-- {
			o := h.anyOp(a)
			if k.Intn(3) == 0 && a.remainder() >= 0 {
				o = h.removalOp(a)
			}
			names = append(names, o.name)
			first, second := tx, cp
			if k.Intn(2) == 0 {
				first, second = cp, tx
			}
			e1 := k.do(o, first)
			d := a.diff(k.Snap(second))
			k.Check("calls stay on their side", d == "", "%s on one side changed the other: %s", o, d)
			a2 := k.Snap(first)
			e2 := k.do(o, second)
			d = a2.diff(k.Snap(first))
			k.Check("calls stay on their side", d == "", "%s on one side changed the other: %s", o, d)
			k.Check("same answer", answer(e1) == answer(e2), "%s: %v on one side, %v on the other", o, e1, e2)
			d = a2.diff(k.Snap(second))
			k.Check("same behaviour", d == "", "after %s the sides differ: %s", o, d)
			k.Distinct("%s ins%d outs%d %v", o.name, len(a.ins), len(a.outs), e1 == nil)
			a = a2
		}
		k.Sample(map[string]interface{}{"calls_on_both_sides": names, "end": a.brief()})
	}
}

// queries runs every query on a builder and returns what they answered.
func queries(tx *txb.TxBuilder) []string {
	var r []string
	add := func(v ...interface{}) { r = append(r, fmt.Sprint(v...)) }
	add(tx.EstimatedSize())
	add(tx.EstimatedFee())
	add(tx.Fee())
	add(tx.ActualFee())
	add(tx.InputValue())
	add(tx.OutputValue(true))
	add(tx.OutputValue(false))
	add(tx.Remainder())
	add(tx.TxID())
	b, err := tx.Serialize()
	h := fnv.New64a()
	h.Write(b)
	add(h.Sum64(), err)
	add(tx.AllInputsAreSigned())
	add(tx.InputCount(), tx.OutputCount())
	for i := 0; i < tx.InputCount() && i < 4; i++ {
		ra, err := tx.InputAddress(i)
		add(ra.Bytes(), err)
		add(tx.InputIsSigned(i))
		o, err := tx.InputOutput(i)
		if err == nil {
			add(o.Value, len(o.LockingScript))
		}
		add(tx.Input(i).Sequence)
		add(txb.UnlockingScriptSize(tx.Inputs[i].LockingScript))
		add(fees.EstimateUnlockingSize(tx.Inputs[i].LockingScript))
	}
	for i := 0; i < tx.OutputCount() && i < 4; i++ {
		ra, err := tx.OutputAddress(i)
		add(ra.Bytes(), err)
		add(tx.Output(i).Value)
		add(txb.OutputTotalCost(tx.Output(i).LockingScript, tx.FeeRate))
		add(txb.DustLimitForOutput(tx.Output(i), tx.DustFeeRate))
	}
	h = fnv.New64a()
	h.Write([]byte(tx.String(bitcoin.MainNet)))
	h.Write([]byte(txb.TxString(tx)))
	add(h.Sum64())
	add(fees.Fee(tx))
	c := tx.Copy()
	add(c.TxID())
	return r
}

// concurrentCase runs independent builders at the same time.
func concurrentCase(k *K) {
	n := 4 + k.Intn(5)
	type actor struct {
		start *txb.TxBuilder
		ops   []*editOp
		log   []string
		end   *snap
		loose bool // uses the random choices of the library
	}
	actors := make([]*actor, n)
	var parent *txb.TxBuilder
	for i := range actors {
		h := k.newHistory(false)
		ac := &actor{}
		if parent != nil && k.Intn(2) == 0 {
			// a copy of the builder another one works on
			c := parent.Copy()
			ac.start = &c
		} else {
			ac.start = k.startBuilder(h)
			h.grow(ac.start, 3+k.Intn(6))
			parent = ac.start
		}
		unshare(ac.start)
		alone := ac.start.Copy()
		for steps := 4 + k.Intn(8); steps > 0; steps-- {
			o := h.anyOp(k.Snap(&alone))
			ac.ops = append(ac.ops, o)
			ac.log = append(ac.log, answer(k.do(o, &alone)))
			if k.Intn(4) == 0 {
				q := &editOp{name: "queries", run: func(tx *txb.TxBuilder) error {
					return fmt.Errorf("%v", queries(tx))
				}}
				ac.ops = append(ac.ops, q)
				ac.log = append(ac.log, answer(k.do(q, &alone)))
			}
		}
		ac.end = k.Snap(&alone)
		if k.Intn(3) == 0 {
			// random choices at the end, judged only by what they keep
			ac.loose = true
			addresses := k.addressKeyIDs(3)
			ac.ops = append(ac.ops, &editOp{name: "random choices", run: func(tx *txb.TxBuilder) error {
				tx.RandomizeOutputs()
				if len(tx.Outputs) > 2 {
					tx.RandomizeOutputsAfter(1)
				}
				txb.BreakQuantity(100000, 30, 5)
				txb.BreakValueLockingScripts(1000000, 1000, []bitcoin.Script{tx.ChangeScript, tx.ChangeScript, tx.ChangeScript}, 1, 0.5, true, true)
				txb.BreakValue(1000000, 1000, addresses, 1, 0.5, true, true)
				return nil
			}})
			ac.log = append(ac.log, "done")
		}
		actors[i] = ac
	}

	// one more builder that everybody queries and nobody changes
	hs := k.newHistory(false)
	shared := k.startBuilder(hs)
	hs.grow(shared, 6)
	sharedWant := fmt.Sprint(queries(shared))

	// The threads note when they make a call without synchronizing with each other, which would
	// hide races from the detector.
	began := make([][]time.Time, n)
	got := make([][]string, n)
	panics := make([]string, n)
	ends := make([]*snap, n)
	sharedGot := make([]string, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range actors {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			p, stack := k.Try(func() {
				for j, o := range actors[i].ops {
					began[i] = append(began[i], time.Now())
					got[i] = append(got[i], answer(o.run(actors[i].start)))
					if j == len(actors[i].ops)/2 {
						sharedGot[i] = fmt.Sprint(queries(shared))
					}
				}
				ends[i] = takeSnap(actors[i].start)
			})
			if p != nil {
				panics[i] = fmt.Sprintf("%v\n%s", p, stack)
			}
		}(i)
	}
	close(gate)
	wg.Wait()
	for i, ac := range actors {
		if panics[i] != "" {
			k.Fail("panic", "panic in concurrent use: %s", panics[i])
		}
		for j := range ac.log {
			k.Check("same answers", got[i][j] == ac.log[j], "builder %d, %s: %q alone, %q concurrently", i, ac.ops[j].name, ac.log[j], got[i][j])
		}
		if ac.loose {
			k.Check("outputs kept by random choices", permuted(ac.end.outs, ends[i].outs), "builder %d lost or gained outputs while others were at work", i)
			ends[i].outs = ac.end.outs
		}
		d := ac.end.diff(ends[i])
		k.Check("same state", d == "", "builder %d: alone -> concurrently: %s", i, d)
		k.Check("shared queries", sharedGot[i] == sharedWant, "queries on a shared builder: %s alone, %s concurrently", sharedWant, sharedGot[i])
	}
	schedule := callOrder(began)
	switches := 0
	for i := 1; i < len(schedule); i++ {
		if schedule[i] != schedule[i-1] {
			switches++
		}
	}
	k.events["context switches between calls"] += switches
	if switches > n {
		// builders were really interleaved
		k.Distinct("%v", schedule)
		k.Decide("interleaved runs")
	}
	k.Sample(map[string]interface{}{"builders": n, "order_of_calls": fmt.Sprintf("%v", schedule), "switches": switches})
}

// addressKeyIDs returns addresses with key identifiers.
func (k *K) addressKeyIDs(n int) []txb.AddressKeyID {
	var r []txb.AddressKeyID
	for i := 0; i < n; i++ {
		ra, err := k.key().key.RawAddress()
		if err != nil {
			panic(err)
		}
		r = append(r, txb.AddressKeyID{Address: ra, KeyID: k.ident()})
	}
	return r
}

// callOrder returns the threads in the order in which their calls began.
func callOrder(began [][]time.Time) []byte {
	type call struct {
		at     time.Time
		thread byte
	}
	var calls []call
	for i := range began {
		for _, at := range began[i] {
			calls = append(calls, call{at, byte(i)})
		}
	}
	sort.SliceStable(calls, func(i, j int) bool { return calls[i].at.Before(calls[j].at) })
	r := make([]byte, len(calls))
	for i := range calls {
		r[i] = calls[i].thread
	}
	return r
}

// functionCalls returns calls of every function and constructor of the library on data of its own.
// The answers depend on the data alone.
func (k *K) functionCalls() (names []string, calls []func() string) {
	add := func(name string, f func() string) {
		names = append(names, name)
		calls = append(calls, f)
	}
	say := func(v ...interface{}) string { return fmt.Sprint(v...) }
	l := k.lockSpendable()
	script := append(bitcoin.Script(nil), l.script...)
	agent := append(bitcoin.Script(nil), k.lockAgent().script...)
	rate, dust := float32(0.5), float32(1)
	ki := k.key()
	key := ki.key
	own := append(bitcoin.Script(nil), ki.lock...)
	address, err := key.RawAddress()
	if err != nil {
		panic(err)
	}
	utxo := k.utxo(lock{script: own}, 100000)
	utxos := []bitcoin.UTXO{utxo, k.utxo(lock{script: script}, 50000)}
	parent := &wire.MsgTx{Version: 1}
	parent.AddTxOut(&wire.TxOut{Value: 70000, LockingScript: own})
	msg := &wire.MsgTx{Version: 1}
	msg.AddTxIn(&wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: *parent.TxHash()}})
	msg.AddTxOut(&wire.TxOut{Value: 60000, LockingScript: script})
	addresses := k.addressKeyIDs(4)
	total := func(outputs []*txb.Output, err error) string {
		sum := uint64(0)
		for _, o := range outputs {
			sum += o.TxOut.Value
		}
		return say(sum+17*uint64(len(outputs)), err)
	}
	scripts := []bitcoin.Script{own, append(bitcoin.Script(nil), own...), append(bitcoin.Script(nil), own...)}
	unlocker := sizeUnlocker{}
	msgCopy := func() *wire.MsgTx { c := msg.Copy(); return &c }

	for _, s := range []bitcoin.Script{script, agent} {
		s := s
		add("UnlockingScriptSize", func() string { return say(txb.UnlockingScriptSize(s)) })
		add("InputSize", func() string { return say(txb.InputSize(s)) })
		add("OutputTotalCost", func() string { return say(txb.OutputTotalCost(s, rate)) })
		add("EstimateUnlockingSize", func() string { return say(fees.EstimateUnlockingSize(s)) })
		add("fees.OutputTotalCost", func() string { return say(fees.OutputTotalCost(s, float64(rate))) })
		add("LockingScriptInputFee", func() string { return say(txb.LockingScriptInputFee(s, rate)) })
	}
	add("OutputSize", func() string { return say(txb.OutputSize(script)) })
	add("VarIntSerializeSize", func() string { return say(txb.VarIntSerializeSize(300)) })
	add("EstimatedFeeValue", func() string { return say(txb.EstimatedFeeValue(301, 0.5), txb.EstimatedFeeValueDown(301, 0.5)) })
	add("UTXOFee", func() string { return say(txb.UTXOFee(utxo, rate)) })
	add("UTXOInputSizeAndFee", func() string { return say(txb.UTXOInputSizeAndFee(utxo, rate)) })
	add("AddressOutputFee", func() string { return say(txb.AddressOutputFee(address, rate)) })
	add("LockingScriptOutputFee", func() string { return say(txb.LockingScriptOutputFee(script, rate)) })
	add("DustLimit", func() string { return say(txb.DustLimit(34, dust), txb.DustLimitForOutput(parent.TxOut[0], dust)) })
	add("DustLimitForAddress", func() string { return say(txb.DustLimitForAddress(address, dust)) })
	add("DustLimitForLockingScript", func() string { return say(txb.DustLimitForLockingScript(script, dust)) })
	add("OutputFeeAndDust", func() string {
		return say(txb.OutputFeeAndDustForLockingScript(script, dust, rate)) + say(txb.OutputFeeAndDustForAddress(address, dust, rate))
	})
	add("signature hash", func() string {
		h, err := txb.SignatureHash(msg, 0, own, 70000, txb.SigHashAll+txb.SigHashForkID, &txb.SigHashCache{})
		return say(h, err)
	})
	add("preimages", func() string {
		a, err := txb.SignaturePreimage(msg, 0, script, 70000, txb.SigHashSingle+txb.SigHashForkID, &txb.SigHashCache{})
		b, _ := txb.SignatureHashPreimageBytes(msg, 0, script, 70000, txb.SigHashNone+txb.SigHashForkID, &txb.SigHashCache{})
		return say(a, b, err)
	})
	add("unlocking scripts", func() string {
		a, err := txb.P2PKHUnlockingScript(key, msg, 0, own, 70000, txb.SigHashAll+txb.SigHashForkID, &txb.SigHashCache{})
		b, _ := txb.P2PKUnlockingScript(key, msg, 0, own, 70000, txb.SigHashAll+txb.SigHashForkID, &txb.SigHashCache{})
		sig, _ := txb.InputSignature(key, msg, 0, own, 70000, txb.SigHashAll+txb.SigHashForkID, &txb.SigHashCache{})
		c, _ := txb.P2MultiPKHUnlockingScript(1, [][]byte{ki.pub, ki.pub}, [][]byte{sig, nil})
		return say(a, b, sig, c, err)
	})
	add("NewTxBuilderFromWire", func() string {
		tx, err := txb.NewTxBuilderFromWire(rate, dust, msgCopy(), []*wire.MsgTx{parent})
		return say(tx.InputValue(), tx.EstimatedSize(), err)
	})
	add("NewTxBuilderFromWireUTXOs", func() string {
		tx, err := txb.NewTxBuilderFromWireUTXOs(rate, dust, msgCopy(), utxos)
		return say(tx.InputValue(), tx.EstimatedSize(), err)
	})
	add("NewTxBuilderFromTransactionWithOutputs", func() string {
		from, _ := txb.NewTxBuilderFromWire(rate, dust, msgCopy(), []*wire.MsgTx{parent})
		tx, err := txb.NewTxBuilderFromTransactionWithOutputs(rate, dust, from)
		return say(tx.InputValue(), tx.EstimatedSize(), err)
	})
	add("fees of a transaction", func() string {
		tx, _ := txb.NewTxBuilderFromWire(rate, dust, msgCopy(), []*wire.MsgTx{parent})
		v, err := fees.InputsValue(tx)
		f, _ := fees.Fee(tx)
		s, _ := fees.EstimateSize(tx, unlocker)
		e, _ := fees.EstimateFee(tx, unlocker, 0.5)
		return say(v, err, f, s, e, fees.OutputsValue(tx))
	})
	add("figures of fees", func() string {
		a, b := fees.OutputFeeAndDustForLockingScript(script, 1, 0.5)
		c, d := fees.OutputSizeAndDustForLockingScript(script, 1)
		return say(a, b, c, d, fees.OutputSize(script), fees.InputSizeForUnlockingScriptSize(300), fees.OutputSizeForLockingScriptSize(300),
			fees.DustLimit(34, 1), fees.DustLimitForLockingScript(script, 1), fees.DustLimitForLockingScriptSize(25, 1),
			fees.OutputFeeForLockingScript(script, 0.5), fees.EstimateFeeValue(99, 0.5), fees.DustLimitForOutput(parent.TxOut[0], 1))
	})
	add("BreakValue", func() string { return total(txb.BreakValue(1000000, 1000, addresses, 1, 0.5, true, true)) })
	add("BreakValueLockingScripts", func() string { return total(txb.BreakValueLockingScripts(1000000, 1000, scripts, 1, 0.5, true, true)) })
	add("BreakQuantity", func() string {
		parts, err := txb.BreakQuantity(123456, 100, 6)
		sum := uint64(0)
		for _, p := range parts {
			sum += p
		}
		return say(sum, err)
	})
	add("fund and sign", func() string {
		tx := txb.NewTxBuilder(rate, dust)
		tx.AddDustOutput(address, false)
		tx.AddPaymentOutput(address, 20000, false)
		tx.SetChangeAddress(address, "id")
		err := tx.AddFunding(utxos)
		e2 := tx.SignP2PKHInput(0, key, &txb.SigHashCache{})
		_, e3 := tx.Sign([]bitcoin.Key{key})
		b, _ := tx.Serialize()
		return say(err, e2, e3, b, tx.String(bitcoin.MainNet), txb.TxString(tx))
	})
	add("fund with broken change", func() string {
		tx := txb.NewTxBuilder(rate, dust)
		tx.AddPaymentOutput(address, 20000, false)
		err := tx.AddFundingBreakChange(utxos, 1000, addresses)
		tx.RandomizeOutputs()
		tx.RandomizeOutputsAfter(0)
		return say(tx.InputValue(), err, tx.ActualFee() >= int64(tx.EstimatedFee()))
	})
	add("send the maximum", func() string {
		tx := txb.NewTxBuilder(rate, dust)
		tx.AddMaxOutput(address)
		err := tx.AddFunding(utxos)
		return say(tx.OutputValue(true), err)
	})
	return names, calls
}

// sizeUnlocker answers with the reference sizes.
type sizeUnlocker struct{ bitcoin_interpreter.Unlocker }

func (sizeUnlocker) UnlockingSize(lockingScript bitcoin.Script) (int, error) {
	return len(lockingScript) + 7, nil
}

// answers makes the calls one after the other.
func (k *K) answers(names []string, calls []func() string) []string {
	var r []string
	for j := range calls {
		k.Call(names[j], func() { r = append(r, calls[j]()) })
	}
	return r
}

// functionCase calls every function from several threads at the same time, each on its own data.
func functionCase(k *K) { k.functionsAtOnce(false) }

// coldCase makes the very first calls of the process at the same time, so that what the library
// prepares at first use is prepared next to other threads.
func coldCase(k *K) { k.functionsAtOnce(true) }

func (k *K) functionsAtOnce(cold bool) {
	n := 3 + k.Intn(4)
	names := make([][]string, n)
	calls := make([][]func() string, n)
	want := make([][]string, n)
	order := make([][]int, n)
	for i := 0; i < n; i++ {
		names[i], calls[i] = k.functionCalls()
		if !cold {
			want[i] = k.answers(names[i], calls[i])
		}
		for r := 0; r < 2; r++ {
			order[i] = append(order[i], k.Perm(len(calls[i]))...)
		}
	}
	got := make([][]string, n)
	began := make([][]time.Time, n)
	panics := make([]string, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			p, stack := k.Try(func() {
				for _, j := range order[i] {
					began[i] = append(began[i], time.Now())
					got[i] = append(got[i], calls[i][j]())
				}
			})
			if p != nil {
				panics[i] = fmt.Sprintf("%v\n%s", p, stack)
			}
		}(i)
	}
	close(gate)
	wg.Wait()
	for i := 0; i < n; i++ {
		if panics[i] != "" {
			k.Fail("panic", "panic in concurrent use: %s", panics[i])
		}
		if cold {
			want[i] = k.answers(names[i], calls[i])
			k.Decide("first calls of the process at the same time")
		}
		for p, j := range order[i] {
			k.Check("same answers from functions", got[i][p] == want[i][j], "%s: %q alone, %q next to other threads", names[i][j], want[i][j], got[i][p])
			k.Event(names[i][j])
		}
	}
	schedule := callOrder(began)
	switches := 0
	for i := 1; i < len(schedule); i++ {
		if schedule[i] != schedule[i-1] {
			switches++
		}
	}
	k.events["context switches between calls"] += switches
	if switches > n {
		k.Distinct("functions %v", schedule)
		k.Decide("interleaved runs of functions")
	}
}

// judgeAddress checks that the address given for an input or output is that of its script.
func (k *K) judgeAddress(what string, i int, script string, f func(int) (bitcoin.RawAddress, error)) {
	var ra bitcoin.RawAddress
	var err error
	k.Call(what+" address", func() { ra, err = f(i) })
	if err == nil {
		s, err := ra.LockingScript()
		k.Check("address accessor", err == nil && string(s) == script, "the address of %s %d is that of script %x (%v), its script is %x", what, i, []byte(s), err, script)
		return
	}
	c := classify([]byte(script))
	// there is no address that needs more than 16 signatures
	if c.kind == "p2pkh" || c.kind == "p2pk" || c.kind == "multi" && c.required <= 16 {
		k.Fail("address accessor", "no address for %s %d with a %s script: %v", what, i, c.kind, err)
		return
	}
	k.Decide("no address")
}

func encodeCase(k *K) {
	empty := k.Snap(txb.NewTxBuilder(k.rate(), k.dustRate()))
	k.Check("new builder", empty.version == 1 && empty.lockTime == 0 && len(empty.ins) == 0 && len(empty.outs) == 0,
		"a new builder is %s, version %d, lock time %d", empty.brief(), empty.version, empty.lockTime)
	h := k.newHistory(k.Intn(3) == 0)
	tx := k.startBuilder(h)
	if k.Intn(2) == 0 {
		tx.MsgTx.Version = int32(k.Uint32())
		tx.MsgTx.LockTime = k.Uint32()
	}
	if k.Intn(40) == 0 {
		n := k.boundaryCount()
		for i := 0; i < n; i++ {
			tx.AddInputUTXO(k.utxo(k.lockP2PKH(), k.value()))
		}
	}
	if k.Intn(40) == 0 {
		n := k.boundaryCount()
		for i := 0; i < n; i++ {
			tx.AddOutput(k.lockP2PKH().script, 1000+k.value(), false, false)
		}
		h.maxOuts = 300
	}
	last := "start"
	var held, heldWant []byte
	for i := 3 + k.Intn(12); i > 0; i-- {
		if i > 1 && k.Intn(3) != 0 {
			s := k.Snap(tx)
			o := h.anyOp(s)
			if k.Intn(15) == 0 {
				o = h.randomizeOp(s)
			}
			k.do(o, tx)
			last = o.name
		}
		if n := len(tx.MsgTx.TxIn); n > 0 && n < 20 && k.Intn(10) == 0 {
			// signed, but for one of them at times
			for _, in := range tx.MsgTx.TxIn {
				in.UnlockingScript = k.bytes(1 + k.Intn(120))
			}
			if k.Intn(2) == 0 {
				tx.MsgTx.TxIn[k.Intn(n)].UnlockingScript = nil
			}
		}
		if k.Intn(6) == 0 && len(tx.MsgTx.TxIn) > 0 {
			j := k.Intn(len(tx.MsgTx.TxIn))
			tx.MsgTx.TxIn[j].UnlockingScript = k.bytes(edgeLengths[k.Intn(len(edgeLengths))])
			tx.MsgTx.TxIn[j].Sequence = k.Uint32()
		}
		s := k.Snap(tx)
		want := encodeTx(tx.MsgTx)
		var got []byte
		var err error
		k.Call("Serialize", func() { got, err = tx.Serialize() })
		if err != nil {
			k.Fail("refused", "serializing failed: %v", err)
		}
		k.Check("encoding", bytes.Equal(got, want), "after %s serialized %x, should be %x", last, got, want)
		k.Check("earlier answer kept", bytes.Equal(held, heldWant), "the serialized form given before %s is now %x, was %x", last, held, heldWant)
		held, heldWant = got, want
		var id bitcoin.Hash32
		k.Call("TxID", func() { id = tx.TxID() })
		k.Check("identifier", bytes.Equal(id[:], dsha(want)), "after %s the identifier is %x, should be %x", last, id[:], dsha(want))
		back := &wire.MsgTx{}
		if err := back.Deserialize(bytes.NewReader(got)); err != nil {
			k.Fail("decode", "the serialized form does not decode: %v", err)
		}
		k.Check("decodes back", bytes.Equal(encodeTx(back), want), "the serialized form decodes to something else")
		k.Check("message", bytes.Equal(encodeTx(tx.GetMsgTx()), want), "the message accessor gives another transaction")
		k.Check("counts", tx.InputCount() == len(s.ins) && tx.OutputCount() == len(s.outs), "counts %d and %d, should be %d and %d",
			tx.InputCount(), tx.OutputCount(), len(s.ins), len(s.outs))
		spent := map[int]*wire.TxOut{}
		for j := range s.ins {
			if j > 5 && j < len(s.ins)-2 {
				continue
			}
			in := tx.Input(j)
			k.Check("input accessor", in.PreviousOutPoint.Hash == s.ins[j].hash && in.PreviousOutPoint.Index == s.ins[j].index &&
				in.Sequence == s.ins[j].seq && string(in.UnlockingScript) == s.ins[j].unlock, "input %d is %v", j, in)
			var o *wire.TxOut
			var err error
			k.Call("InputOutput", func() { o, err = tx.InputOutput(j) })
			if s.ins[j].lock == "" && s.ins[j].value == 0 {
				k.Check("unknown spent output", err != nil, "spent output of input %d is given although unknown", j)
			} else {
				k.Check("spent output accessor", err == nil && string(o.LockingScript) == s.ins[j].lock && o.Value == s.ins[j].value, "spent output of input %d: %v, %v", j, o, err)
				spent[j] = o
			}
			k.Check("signed accessor", tx.InputIsSigned(j) == (s.ins[j].unlock != ""), "input %d signed: %v", j, tx.InputIsSigned(j))
		}
		for j, o := range spent {
			k.Check("spent outputs side by side", string(o.LockingScript) == s.ins[j].lock && o.Value == s.ins[j].value, "spent output of input %d, asked before those of other inputs: %v", j, o)
		}
		all := true
		for j := range s.ins {
			all = all && s.ins[j].unlock != ""
		}
		k.Check("all signed accessor", tx.AllInputsAreSigned() == all, "all inputs signed: %v, should be %v", tx.AllInputsAreSigned(), all)
		if all && len(s.ins) > 1 {
			k.Event("all of several inputs signed")
		}
		if n := len(s.ins); n > 0 {
			j := k.Intn(n)
			k.judgeAddress("input", j, s.ins[j].lock, tx.InputAddress)
		}
		if n := len(s.outs); n > 0 {
			j := k.Intn(n)
			k.judgeAddress("output", j, s.outs[j].script, tx.OutputAddress)
		}
		past := len(s.ins) + k.Intn(3)
		var perr error
		k.Call("InputOutput", func() { _, perr = tx.InputOutput(past) })
		k.Check("no spent output past the end", perr != nil, "position %d of %d has a spent output", past, len(s.ins))
		var signed bool
		k.Call("InputIsSigned", func() { signed = tx.InputIsSigned(past) })
		k.Check("no input there", !signed, "input %d of %d is reported as signed", past, len(s.ins))
		for j := range s.outs {
			if j > 5 && j < len(s.outs)-2 {
				continue
			}
			o := tx.Output(j)
			k.Check("output accessor", string(o.LockingScript) == s.outs[j].script && o.Value == s.outs[j].value, "output %d is %v", j, o)
		}
		k.Distinct("%s ins%d outs%d", last, len(s.ins), len(s.outs))
		k.Sample(map[string]interface{}{"history": append([]string(nil), k.trace...), "serialized_bytes": len(got), "identifier": id.String()})
	}
}

func init() {
	register("C15", "Cases are drawn from the seed: builders with a history of 4-19 calls (funding, signing, change added for the fee, identifiers) are copied; then the same calls are made on both sides in turn, or every byte of one side is overwritten, or both sides are used at the same time under the race detector. Distinct counts combinations of call, numbers of inputs and outputs and outcome.", func(c *C) {
		c.Require("equal content", 3000)
		c.Require("raw writes stay on their side", 500)
		c.Require("same behaviour", 3000)
		c.Require("same state concurrently", 500)
		c.Cases("copies", c.Pick(8000, 80000), copyCase)
		c.reportRaces()
	})
	register("C25", "Cases are drawn from the seed: 4-8 builders (some copies of one another) with 4-20 calls each are run alone and then at the same time in one thread each, released together, under the race detector, with queries on a shared builder in between; the first calls of the process are made by 3-6 threads at the same time; every function of the library is also called from 3-6 threads at the same time in random orders on separate data; answers and end states are compared. Distinct counts orders of calls over the threads that were really interleaved.", func(c *C) {
		c.Require("same state", 500)
		c.Require("shared queries", 500)
		c.Require("interleaved runs", 50)
		c.Require("same answers from functions", 5000)
		c.Require("interleaved runs of functions", 30)
		c.Require("first calls of the process at the same time", 3)
		c.CasesSerial("first calls", 1, coldCase)
		c.CasesSerial("concurrent", c.Pick(250, 2000), concurrentCase)
		c.CasesSerial("functions", c.Pick(100, 1000), functionCase)
		c.reportRaces()
	})
	register("C28", "Histories of 3-14 calls drawn from the seed over all operations, with random versions, lock times, sequences, unlocking scripts across length prefixes and counts around 252; encoding, identifier and accessors are compared after every call. Distinct counts combinations of last call and numbers of inputs and outputs.", func(c *C) {
		c.Require("encoding", 10000)
		c.Require("identifier", 10000)
		c.Require("spent output accessor", 1000)
		c.Cases("encoding", c.Pick(15000, 150000), encodeCase)
	})
}
