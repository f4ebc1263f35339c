package main

import (
	"bytes"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"

	"github.com/pkg/errors"
)

// provider is a transaction with spent outputs, some of which may be missing.
type provider struct {
	tx    *wire.MsgTx
	spent []*wire.TxOut
}

func (p *provider) TxID() bitcoin.Hash32     { return *p.tx.TxHash() }
func (p *provider) GetMsgTx() *wire.MsgTx    { return p.tx }
func (p *provider) InputCount() int          { return len(p.tx.TxIn) }
func (p *provider) Input(i int) *wire.TxIn   { return p.tx.TxIn[i] }
func (p *provider) OutputCount() int         { return len(p.tx.TxOut) }
func (p *provider) Output(i int) *wire.TxOut { return p.tx.TxOut[i] }
func (p *provider) InputOutput(i int) (*wire.TxOut, error) {
	if i >= len(p.spent) || p.spent[i] == nil {
		return nil, errors.New("missing spent output")
	}
	return p.spent[i], nil
}

func fromExistingCase(k *K) {
	// parents
	var parents []*wire.MsgTx
	for n := 1 + k.Intn(4); n > 0; n-- {
		p := k.genMsgTx()
		for j := k.Intn(4); j > 0 || len(p.TxOut) == 0; j-- {
			p.TxOut = append(p.TxOut, &wire.TxOut{Value: k.value(), LockingScript: k.lockOutput().script})
		}
		parents = append(parents, p)
	}
	tx := k.genMsgTx()
	if k.Intn(10) == 0 {
		tx.TxIn = nil
	}
	if len(tx.TxIn) > 6 && k.Intn(2) == 0 {
		tx.TxIn = tx.TxIn[:6]
	}
	form := k.Intn(3)
	type want struct {
		out   *wire.TxOut
		keyID string
	}
	wants := make([]want, len(tx.TxIn))
	missing, past := 0, 0
	omit := map[int]bool{} // parents not supplied
	for i := range parents {
		omit[i] = k.Intn(10) == 0
	}
	var utxos []bitcoin.UTXO
	taken := map[string]bool{}
	for i, in := range tx.TxIn {
		switch r := k.Intn(14); {
		case r == 0:
			// a parent nobody knows
			missing++
			continue
		case r == 1 && form == 0:
			// past the outputs of a known parent
			p := k.Intn(len(parents))
			in.PreviousOutPoint.Hash = *parents[p].TxHash()
			in.PreviousOutPoint.Index = uint32(len(parents[p].TxOut)) + []uint32{0, 1, 1000, 1 << 30}[k.Intn(4)]
			missing++
			past++
			continue
		case r == 2:
			// spends nothing, so there is nothing that could be missing
			in.PreviousOutPoint = wire.OutPoint{Index: 0xffffffff}
			k.Event("input that spends nothing")
			continue
		}
		pi := k.Intn(len(parents))
		p := parents[pi]
		j := k.Intn(len(p.TxOut))
		in.PreviousOutPoint.Hash = *p.TxHash()
		in.PreviousOutPoint.Index = uint32(j)
		point := in.PreviousOutPoint.String()
		if taken[point] {
			// no spent output twice
			in.PreviousOutPoint.Hash = k.hash()
			missing++
			continue
		}
		taken[point] = true
		switch form {
		case 0:
			if omit[pi] {
				missing++
				continue
			}
			wants[i] = want{out: p.TxOut[j]}
		case 1:
			if k.Intn(14) == 0 {
				missing++
				continue
			}
			u := bitcoin.UTXO{Hash: *p.TxHash(), Index: uint32(j), Value: p.TxOut[j].Value, LockingScript: p.TxOut[j].LockingScript, KeyID: k.ident()}
			utxos = append(utxos, u)
			wants[i] = want{p.TxOut[j], u.KeyID}
			if k.Intn(6) == 0 {
				utxos = append(utxos, u)
			}
		case 2:
			if k.Intn(20) == 0 {
				missing++
				continue
			}
			wants[i] = want{out: p.TxOut[j]}
		}
	}
	// unrelated ones, also similar ones
	var supplied []*wire.MsgTx
	for i, p := range parents {
		if !omit[i] {
			supplied = append(supplied, p)
			if k.Intn(5) == 0 {
				supplied = append(supplied, p)
			}
		}
	}
	for n := k.Intn(3); n > 0; n-- {
		supplied = append(supplied, k.genMsgTx())
	}
	k.Shuffle(len(supplied), func(i, j int) { supplied[i], supplied[j] = supplied[j], supplied[i] })
	for n := k.Intn(3); n > 0; n-- {
		utxos = append(utxos, k.utxo(k.lockOutput(), k.value()))
	}
	spent := map[wire.OutPoint]bool{}
	for _, in := range tx.TxIn {
		spent[in.PreviousOutPoint] = true
	}
	for n := k.Intn(3); n > 0 && len(utxos) > 0; n-- {
		u := utxos[k.Intn(len(utxos))]
		u.Value++
		u.KeyID = "other"
		if k.Intn(2) == 0 {
			u.Hash[k.Intn(32)] ^= 1
		} else {
			u.Index += []uint32{1, 1000, 1 << 8, 1 << 16, 1 << 31, 1<<32 - 1}[k.Intn(6)]
		}
		if spent[wire.OutPoint{Hash: u.Hash, Index: u.Index}] {
			continue
		}
		utxos = append(utxos, u)
	}
	k.Shuffle(len(utxos), func(i, j int) { utxos[i], utxos[j] = utxos[j], utxos[i] })

	enc := encodeTx(tx)
	var encSupplied [][]byte
	for _, p := range supplied {
		encSupplied = append(encSupplied, encodeTx(p))
	}
	wantUTXOs := fmt.Sprint(utxos)
	rate, dust := k.rate(), k.dustRate()
	var b *txb.TxBuilder
	var err error
	switch form {
	case 0:
		k.Tracef("%d inputs, %d missing, from %d parent transactions", len(tx.TxIn), missing, len(supplied))
		k.Call("NewTxBuilderFromWire", func() { b, err = txb.NewTxBuilderFromWire(rate, dust, tx, supplied) })
	case 1:
		k.Tracef("%d inputs, %d missing, from %d spendable outputs", len(tx.TxIn), missing, len(utxos))
		k.Call("NewTxBuilderFromWireUTXOs", func() { b, err = txb.NewTxBuilderFromWireUTXOs(rate, dust, tx, utxos) })
	case 2:
		k.Tracef("%d inputs, %d missing, from a transaction with spent outputs", len(tx.TxIn), missing)
		p := &provider{tx: tx}
		for i := range wants {
			p.spent = append(p.spent, wants[i].out)
		}
		k.Call("NewTxBuilderFromTransactionWithOutputs", func() { b, err = txb.NewTxBuilderFromTransactionWithOutputs(rate, dust, p) })
	}
	k.Tracef("result: %v", err)
	k.Check("missing data reported exactly", (err != nil) == (missing > 0), "%d of %d inputs are missing their spent output (%d past the end), error %v", missing, len(tx.TxIn), past, err)
	if err != nil {
		k.Decide("missing data reported")
		if form != 2 {
			k.Check("kind of error", errors.Cause(err) == txb.ErrMissingInputData && b != nil, "builder %v, error %v", b != nil, err)
		}
	}
	for i := range supplied {
		k.Check("arguments kept", bytes.Equal(encSupplied[i], encodeTx(supplied[i])), "a supplied transaction was changed")
	}
	k.Check("arguments kept", fmt.Sprint(utxos) == wantUTXOs, "the supplied outputs were changed")
	k.Check("transaction kept", bytes.Equal(enc, encodeTx(tx)), "the given transaction was changed")
	k.Distinct("form%d ins%d outs%d missing%d past%d", form, len(tx.TxIn), len(tx.TxOut), missing, past)
	if b == nil {
		return
	}
	s := k.Snap(b)
	k.Check("same transaction", bytes.Equal(encodeTx(b.MsgTx), enc), "the builder carries another transaction")
	k.Check("rates", s.feeRate == rate && s.dustRate == dust && !s.sendMax && s.change == "" && s.changeKey == "", "settings: %s", s.brief())
	known := uint64(0)
	for i := range s.ins {
		w := wants[i]
		in := s.ins[i]
		if w.out == nil {
			k.Check("nothing for the missing", in.lock == "" && in.value == 0 && in.keyID == "", "input %d is missing its spent output but has %s", i, in)
			continue
		}
		known += w.out.Value
		k.Check("right spent output", in.lock == string(w.out.LockingScript) && in.value == w.out.Value, "input %d spends %d but has %s", i, w.out.Value, in)
		if form == 1 {
			k.Check("key identifier", in.keyID == w.keyID, "input %d has key identifier %q, should be %q", i, in.keyID, w.keyID)
		} else {
			k.Check("key identifier", in.keyID == "", "input %d has key identifier %q", i, in.keyID)
		}
		o, err := b.InputOutput(i)
		if len(w.out.LockingScript) > 0 || w.out.Value > 0 {
			k.Check("spent output answered", err == nil && o.Value == w.out.Value && bytes.Equal(o.LockingScript, w.out.LockingScript), "input %d: %v %v", i, o, err)
		}
	}
	for i, o := range s.outs {
		k.Check("blank markings", !o.remainder && !o.dust && o.keyID == "", "output %d is marked: %s", i, o)
	}
	// the builder answers, also with data missing
	k.Call("queries", func() { queries(b) })
	k.Check("value of what is known", b.InputValue() >= known, "input value %d, %d is known", b.InputValue(), known)
	k.Check("output value", b.OutputValue(true) == s.outValue() && b.OutputValue(false) == s.outValue(), "output value %d", b.OutputValue(true))
	d := s.diff(k.Snap(b))
	k.Check("queries change nothing", d == "", "queries changed the builder: %s", d)
	// every input and output has data of its own
	if n := len(b.Outputs); n > 0 && k.Intn(2) == 0 {
		i := k.Intn(n)
		b.Outputs[i].KeyID, b.Outputs[i].IsDust = "own", true
		s.outs[i].keyID, s.outs[i].dust = "own", true
		d = s.diff(k.Snap(b))
		k.Check("data of its own", d == "", "marking output %d of %d marked: %s", i, n, d)
	}
	if n := len(b.Inputs); n > 0 && k.Intn(2) == 0 {
		i := k.Intn(n)
		b.Inputs[i].KeyID, b.Inputs[i].Value = "own", 12345
		s.ins[i].keyID, s.ins[i].value = "own", 12345
		d = s.diff(k.Snap(b))
		k.Check("data of its own", d == "", "giving input %d of %d data gave: %s", i, n, d)
	}
	// fee adjustments leave outputs the builder did not add
	if len(s.outs) > 0 && k.Intn(4) == 0 {
		k.Call("AdjustFee", func() {
			_, err := b.AdjustFee(1)
			k.Check("blank markings", errors.Cause(err) == txb.ErrInsufficientValue, "an unmarked output was used for the fee: %v", err)
		})
	}
	k.Sample(map[string]interface{}{"form": form, "inputs": len(s.ins), "missing": missing, "outputs": len(s.outs), "error": fmt.Sprint(err)})
}

// ---------------------------------------------------------------------------------------------

type watched struct {
	what string
	mem  []byte
	want []byte
}

// guards remembers every byte handed to the library.
type guards struct {
	k    *K
	list []watched
}

// bytes returns a copy of b with room behind it, and watches both.
func (g *guards) bytes(what string, b []byte) []byte {
	mem := make([]byte, len(b)+24)
	copy(mem, b)
	for i := len(b); i < len(mem); i++ {
		mem[i] = 0xc5
	}
	g.list = append(g.list, watched{what, mem, append([]byte(nil), mem...)})
	return mem[:len(b)]
}

func (g *guards) check(op string) {
	for i := range g.list {
		w := &g.list[i]
		g.k.Check("arguments kept", bytes.Equal(w.mem, w.want), "%s changed the bytes of %s from %x to %x", op, w.what, w.want, w.mem)
	}
}

func (g *guards) utxo(u bitcoin.UTXO) bitcoin.UTXO {
	u.LockingScript = g.bytes("the script of a spendable output", u.LockingScript)
	return u
}

// repeat puts outputs that are already spent, or listed twice, into a list.
func (g *guards) repeat(tx *txb.TxBuilder, list []bitcoin.UTXO) {
	k := g.k
	for n := k.Intn(3); n > 0; n-- {
		i := k.Intn(len(list))
		if len(tx.Inputs) > 0 && k.Intn(3) != 0 {
			p := tx.MsgTx.TxIn[k.Intn(len(tx.MsgTx.TxIn))].PreviousOutPoint
			list[i].Hash, list[i].Index = p.Hash, p.Index
		} else {
			list[i] = list[k.Intn(len(list))]
		}
	}
}

func describeUTXOs(us []bitcoin.UTXO) string {
	s := ""
	for _, u := range us {
		s += fmt.Sprintf("%x:%d %d %x %q|", u.Hash[:], u.Index, u.Value, []byte(u.LockingScript), u.KeyID)
	}
	return s
}

func describeAddrs(as []txb.AddressKeyID) string {
	s := ""
	for _, a := range as {
		s += fmt.Sprintf("%x %q|", a.Address.Bytes(), a.KeyID)
	}
	return s
}

func describeKeys(ks []bitcoin.Key) string {
	s := ""
	for _, key := range ks {
		s += fmt.Sprintf("%x|", key.Bytes())
	}
	return s
}

func describeTx(tx *wire.MsgTx) string { return string(encodeTx(tx)) }

// kept runs a call and checks that a description of its arguments stays the same.
func (g *guards) kept(op string, describe func() string, f func()) {
	before := describe()
	g.k.Call(op, f)
	after := describe()
	g.k.Check("arguments kept", before == after, "%s changed its arguments from %q to %q", op, before, after)
	g.check(op)
	g.k.Distinct("%s", op)
}

// pure runs a query and checks that the builder and all arguments stay the same.
func (g *guards) pure(tx *txb.TxBuilder, op string, f func()) {
	k := g.k
	before := k.Snap(tx)
	k.Call(op, f)
	d := before.diff(k.Snap(tx))
	k.Check("queries change nothing", d == "", "%s changed the builder: %s", op, d)
	g.check(op)
	k.Distinct("%s %s outs%d", op, before.kinds(), len(before.outs))
}

func (g *guards) queries(tx *txb.TxBuilder) {
	k := g.k
	type q struct {
		name string
		f    func()
	}
	in, out := -1, -1
	if len(tx.Inputs) > 0 {
		in = k.Intn(len(tx.Inputs))
	}
	if len(tx.Outputs) > 0 {
		out = k.Intn(len(tx.Outputs))
	}
	rate, dust := tx.FeeRate, tx.DustFeeRate
	var e *expanded_tx.ExpandedTx
	list := []q{
		{"EstimatedSize", func() { tx.EstimatedSize() }},
		{"EstimatedFee", func() { tx.EstimatedFee() }},
		{"Fee", func() { tx.Fee() }},
		{"ActualFee", func() { tx.ActualFee() }},
		{"InputValue", func() { tx.InputValue() }},
		{"OutputValue", func() { tx.OutputValue(k.Intn(2) == 0) }},
		{"Remainder", func() { tx.Remainder() }},
		{"TxID", func() { tx.TxID() }},
		{"Serialize", func() { tx.Serialize() }},
		{"String", func() { _ = tx.String(bitcoin.MainNet) }},
		{"TxString", func() { txb.TxString(tx) }},
		{"AllInputsAreSigned", func() { tx.AllInputsAreSigned() }},
		{"Copy", func() { tx.Copy() }},
		{"counts", func() { tx.InputCount(); tx.OutputCount(); tx.GetMsgTx() }},
		{"fees of the builder", func() {
			fees.Fee(tx)
			fees.InputsValue(tx)
			fees.OutputsValue(tx)
			fees.EstimateSize(tx, sizer{})
			fees.EstimateFee(tx, sizer{}, 0.5)
		}},
		{"NewExpandedTx", func() { e, _ = expanded_tx.NewExpandedTxFromTransactionWithOutputs(tx); _ = e }},
	}
	if in >= 0 {
		s := tx.Inputs[in].LockingScript
		ht := []txb.SigHashType{1, 2, 3, 0x81, 0x82, 0x83}[k.Intn(6)] | txb.SigHashForkID
		cache := &txb.SigHashCache{}
		list = append(list,
			q{"InputAddress", func() { tx.InputAddress(in) }},
			q{"InputIsSigned", func() { tx.InputIsSigned(in) }},
			q{"InputOutput", func() { tx.InputOutput(in) }},
			q{"UnlockingScriptSize", func() { txb.UnlockingScriptSize(s) }},
			q{"InputSize", func() { txb.InputSize(s) }},
			q{"fees.EstimateUnlockingSize", func() { fees.EstimateUnlockingSize(s) }},
			q{"fees.OutputTotalCost", func() { fees.OutputTotalCost(s, 0.5) }},
			q{"LockingScriptInputFee", func() { txb.LockingScriptInputFee(s, rate) }},
			q{"fees.EstimateInputSize", func() { fees.EstimateInputSize(tx.MsgTx.TxIn[in], s, sizer{}) }},
			q{"SignatureHash", func() { txb.SignatureHash(tx.MsgTx, in, s, tx.Inputs[in].Value, ht, cache) }},
			q{"SignaturePreimage", func() { txb.SignaturePreimage(tx.MsgTx, in, s, tx.Inputs[in].Value, ht, cache) }},
			q{"SignatureHashPreimageBytes", func() { txb.SignatureHashPreimageBytes(tx.MsgTx, in, s, tx.Inputs[in].Value, ht, cache) }},
			q{"InputSignature", func() { txb.InputSignature(k.key().key, tx.MsgTx, in, s, tx.Inputs[in].Value, ht, cache) }},
			q{"P2PKHUnlockingScript", func() { txb.P2PKHUnlockingScript(k.key().key, tx.MsgTx, in, s, tx.Inputs[in].Value, ht, cache) }},
			q{"P2PKUnlockingScript", func() { txb.P2PKUnlockingScript(k.key().key, tx.MsgTx, in, s, tx.Inputs[in].Value, ht, cache) }},
			q{"hash parts", func() { cache.HashPrevOuts(tx.MsgTx); cache.HashSequence(tx.MsgTx); cache.HashOutputs(tx.MsgTx) }},
		)
	}
	if out >= 0 {
		o := tx.MsgTx.TxOut[out]
		list = append(list,
			q{"OutputAddress", func() { tx.OutputAddress(out) }},
			q{"OutputSize", func() { txb.OutputSize(o.LockingScript) }},
			q{"OutputTotalCost", func() { txb.OutputTotalCost(o.LockingScript, rate) }},
			q{"DustLimitForOutput", func() { txb.DustLimitForOutput(o, dust) }},
			q{"DustLimitForLockingScript", func() { txb.DustLimitForLockingScript(o.LockingScript, dust) }},
			q{"OutputFeeAndDust", func() { txb.OutputFeeAndDustForLockingScript(o.LockingScript, dust, rate) }},
			q{"LockingScriptOutputFee", func() { txb.LockingScriptOutputFee(o.LockingScript, rate) }},
			q{"fees of the output", func() {
				fees.DustLimitForOutput(o, 1)
				fees.OutputFeeAndDustForLockingScript(o.LockingScript, 1, 1)
				fees.OutputSizeAndDustForLockingScript(o.LockingScript, 1)
			}},
		)
	}
	for n := 6; n > 0; n-- {
		x := list[k.Intn(len(list))]
		g.pure(tx, x.name, x.f)
	}
}

// argumentsCase follows a builder with every byte handed to the library under watch.
// destinations is a number of destinations, seldom large.
func (k *K) destinations() int {
	if k.Intn(5) == 0 {
		return 6 + k.Intn(30)
	}
	return 1 + k.Intn(5)
}

func argumentsCase(k *K) {
	g := &guards{k: k}
	tx := txb.NewTxBuilder([]float32{0.05, 0.5, 1, 3}[k.Intn(4)], k.dustRate())
	var locks []lock
	fresh := func() bitcoin.UTXO {
		l := k.lockSized()
		locks = append(locks, l)
		return g.utxo(k.utxo(l, 1000+k.value()))
	}
	if k.Intn(5) == 0 {
		// from an existing transaction
		parent := k.genMsgTx()
		for i := 0; i < 3; i++ {
			l := k.lockSized()
			locks = append(locks, l)
			parent.TxOut = append(parent.TxOut, &wire.TxOut{Value: 1000 + k.value(), LockingScript: g.bytes("a parent output", l.script)})
		}
		child := &wire.MsgTx{Version: 1}
		for i := 0; i < 2; i++ {
			child.TxIn = append(child.TxIn, &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: *parent.TxHash(), Index: uint32(len(parent.TxOut) - 1 - i)}, Sequence: 0xffffffff})
		}
		other := k.genMsgTx()
		list := []*wire.MsgTx{other, parent}
		g.kept("NewTxBuilderFromWire", func() string {
			return describeTx(parent) + describeTx(other) + fmt.Sprintf("%p%p", list[0], list[1]) + describeTx(child)
		}, func() {
			tx, _ = txb.NewTxBuilderFromWire(0.5, 1, child, list)
		})
	}
	for steps := 4 + k.Intn(10); steps > 0; steps-- {
		switch op := k.Intn(16); op {
		case 0:
			u := fresh()
			g.kept("AddInputUTXO", func() string { return describeUTXOs([]bitcoin.UTXO{u}) }, func() { tx.AddInputUTXO(u) })
		case 1:
			u := fresh()
			g.kept("AddInput", func() string { return "" }, func() {
				tx.AddInput(wire.OutPoint{Hash: u.Hash, Index: u.Index}, u.LockingScript, u.Value)
			})
		case 2:
			u := fresh()
			i := k.Intn(len(tx.Inputs) + 1)
			g.kept("InsertInput", func() string { return describeUTXOs([]bitcoin.UTXO{u}) }, func() { tx.InsertInput(i, u) })
			if len(tx.Inputs) > 0 {
				u := fresh()
				i := k.Intn(len(tx.Inputs))
				g.kept("UpdateInputUTXO", func() string { return describeUTXOs([]bitcoin.UTXO{u}) }, func() { tx.UpdateInputUTXO(i, u) })
			}
		case 3:
			s := g.bytes("an output script", k.lockOutput().script)
			g.kept("AddOutput", func() string { return "" }, func() { tx.AddOutput(s, 100000+k.value(), k.Intn(5) == 0, k.Intn(5) == 0) })
		case 4:
			s := g.bytes("an output script", k.lockOutput().script)
			i := k.Intn(len(tx.Outputs) + 1)
			g.kept("InsertOutput", func() string { return "" }, func() { tx.InsertOutput(i, s, 100000+k.value(), false, false) })
			if len(tx.Outputs) > 0 {
				s := g.bytes("an output script", k.lockOutput().script)
				i := k.Intn(len(tx.Outputs))
				g.kept("UpdateOutput", func() string { return "" }, func() { tx.UpdateOutput(uint32(i), s) })
			}
		case 5:
			s := g.bytes("a change script", k.lockSpendable().script)
			g.kept("SetChangeLockingScript", func() string { return "" }, func() { tx.SetChangeLockingScript(s, k.ident()) })
		case 6:
			_, ra := k.lockAddress()
			g.kept("address outputs", func() string { return string(ra.Bytes()) }, func() {
				tx.AddPaymentOutput(ra, 100000, false)
				tx.AddDustOutput(ra, false)
				tx.SetChangeAddress(ra, "c")
				txb.DustLimitForAddress(ra, 1)
				txb.OutputFeeAndDustForAddress(ra, 1, 1)
				txb.AddressOutputFee(ra, 1)
			})
		case 7, 8:
			n := k.Intn(5)
			room := make([]bitcoin.UTXO, n+2)
			for i := range room {
				room[i] = fresh()
				room[i].Value = uint64(k.Intn(200000))
			}
			g.repeat(tx, room)
			if k.Intn(10) == 0 {
				tx.SendMax = true
			}
			g.kept("AddFunding", func() string { return describeUTXOs(room) }, func() { tx.AddFunding(room[:n]) })
			tx.SendMax = false
		case 9:
			n, m := 1+k.Intn(4), k.destinations()
			room := make([]bitcoin.UTXO, n+2)
			for i := range room {
				room[i] = fresh()
				room[i].Value = uint64(k.Intn(500000))
			}
			g.repeat(tx, room)
			addrs, _ := k.changeAddresses(m+2, nil)
			g.kept("AddFundingBreakChange", func() string { return describeUTXOs(room) + describeAddrs(addrs) }, func() {
				tx.AddFundingBreakChange(room[:n], 1000, addrs[:m])
			})
		case 10, 11:
			keys := []bitcoin.Key{k.key().key}
			for _, in := range tx.Inputs {
				for _, ki := range lockOfScript(in.LockingScript).keys {
					keys = append(keys, ki.key)
				}
			}
			if len(keys) > 16 {
				break
			}
			keys = shuffleKeys(k, append(keys, k.key().key, k.key().key))
			n := len(keys) - 2
			name, f := "Sign", func() { tx.Sign(keys[:n]) }
			if k.Intn(2) == 0 {
				name, f = "SignOnly", func() { tx.SignOnly(keys[:n]) }
			}
			g.kept(name, func() string { return describeKeys(keys) }, f)
		case 12:
			m := k.destinations()
			addrs, _ := k.changeAddresses(m+2, nil)
			var scripts []bitcoin.Script
			for i := 0; i < m+2; i++ {
				scripts = append(scripts, g.bytes("a destination script", k.lockOutput().script))
			}
			var outs []*txb.Output
			g.kept("BreakValue", func() string { return describeAddrs(addrs) }, func() {
				outs, _ = txb.BreakValue(uint64(k.Intn(1000000)), 1000, addrs[:m], 1, 0.5, true, true)
			})
			g.kept("BreakValueLockingScripts", func() string { return fmt.Sprint(scripts) }, func() {
				txb.BreakValueLockingScripts(uint64(k.Intn(1000000)), 1000, scripts[:m], 1, 0.5, true, k.Intn(2) == 0)
			})
			g.kept("AddOutputs", func() string { return fmt.Sprint(parts(outs), len(outs)) }, func() { tx.AddOutputs(outs) })
		case 13:
			tx.FeeRate += 0.01
			g.kept("fee adjustment", func() string { return "" }, func() {
				switch k.Intn(3) {
				case 0:
					tx.CalculateFee()
				case 1:
					tx.AdjustFee(k.Int63n(2000) - 1000)
				case 2:
					tx.ZeroizeFee()
				}
			})
		case 14:
			if len(tx.Inputs) > 0 && k.Intn(2) == 0 {
				i := k.Intn(len(tx.Inputs))
				g.kept("RemoveInput", func() string { return "" }, func() { tx.RemoveInput(i) })
			}
			if len(tx.Outputs) > 0 {
				i := k.Intn(len(tx.Outputs))
				g.kept("output edits", func() string { return "" }, func() {
					tx.AddValueToOutput(uint32(i), 10)
					tx.SubtractValueFromOutput(uint32(i), 10)
					tx.SetOutputToDust(uint32(i))
					tx.RandomizeOutputs()
					if k.Intn(3) == 0 {
						tx.RemoveOutput(i)
					}
				})
			}
		case 15:
			// an input described by unlocking data
			if err := tx.AddInput(wire.OutPoint{Hash: k.hash()}, nil, 0); err == nil {
				tx.MsgTx.TxIn[len(tx.MsgTx.TxIn)-1].UnlockingScript = g.bytes("unlocking data", k.unlockingData(108, 5000))
			}
			n := 1 + k.Intn(4)
			var pubs, sigs [][]byte
			for i := 0; i < n; i++ {
				pubs = append(pubs, g.bytes("a public key", k.key().pub))
				sigs = append(sigs, g.bytes("a signature", k.bytes(70+k.Intn(4))))
			}
			g.kept("P2MultiPKHUnlockingScript", func() string { return fmt.Sprint(pubs, sigs) }, func() {
				txb.P2MultiPKHUnlockingScript(uint16(n), pubs, sigs)
			})
		}
		if len(tx.Inputs) > 16 {
			return
		}
		g.queries(tx)
	}
	k.Sample(map[string]interface{}{"watched_arguments": len(g.list), "end": k.Snap(tx).brief()})
}

func init() {
	register("C21", "Transactions with 0-256 inputs are put on builders in all three ways from shuffled, repeated, unrelated, similar and missing parents, spent outputs and indexes past the end, drawn from the seed; builder, error and arguments are judged, and so is what becomes of the others when one input or output is given data. Distinct counts combinations of way, numbers of inputs and outputs and of missing ones.", func(c *C) {
		c.Require("right spent output", 10000)
		c.Require("missing data reported", 2000)
		c.Require("data of its own", 5000)
		c.Require("missing data reported exactly", 10000)
		c.Cases("from existing", c.Pick(25000, 250000), fromExistingCase)
	})
	register("C24", "Builders go through 4-13 operations of every kind with every script, list and key handed to the library in watched memory with room behind it, and six queries or calculations after each; builder and watched memory are compared around every call. Distinct counts combinations of call, kinds of inputs and number of outputs.", func(c *C) {
		c.Require("queries change nothing", 50000)
		c.Require("arguments kept", 100000)
		c.Cases("arguments", c.Pick(6000, 60000), argumentsCase)
	})
}
