package main

import (
	"context"
	"fmt"
	"math"
	"math/big"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"

	"github.com/pkg/errors"
)

// feeRange gives the bounds of size*rate rounded up for any rate, with an allowance for the product
// not being exact.
func feeRange(size int, rate float64) (lo, hi uint64) {
	exact := new(big.Rat).SetInt64(int64(size))
	r := new(big.Rat)
	r.SetFloat64(rate)
	exact.Mul(exact, r)
	up := func(f *big.Rat) uint64 {
		n := new(big.Int).Add(f.Num(), new(big.Int).Sub(f.Denom(), big.NewInt(1)))
		return n.Div(n, f.Denom()).Uint64()
	}
	eps := big.NewRat(1, 1000000000000)
	one := big.NewRat(1, 1)
	lo = up(new(big.Rat).Mul(exact, new(big.Rat).Sub(one, eps)))
	hi = up(new(big.Rat).Mul(exact, new(big.Rat).Add(one, eps)))
	return
}

// anyScript picks a script of any kind and length.
func (k *K) anyScript() lock {
	switch k.Intn(8) {
	case 0:
		return k.lockData()
	case 1:
		return k.lockUnknown()
	case 2:
		return k.lockAgent()
	case 3:
		// lengths across the prefix boundaries that are not supported types
		n := edgeLengths[k.Intn(len(edgeLengths))]
		if k.Intn(6) == 0 {
			n = hugeLengths[k.Intn(len(hugeLengths))]
		}
		b := k.bytes(n)
		for i := range b {
			b[i] = 0x61
		}
		return lock{b, "unknown", nil, 0}
	case 4:
		return k.bigMulti()
	}
	return k.lockSpendable()
}

// bigMulti is a multi-signature script whose unlocking size crosses the length prefix boundaries.
func (k *K) bigMulti() lock {
	if k.Intn(3) != 0 {
		return k.lockMulti()
	}
	n := 2 + k.Intn(3) // 2 of n: 218 + (n-2); 3 of n: 327
	m := n
	if k.Intn(2) == 0 {
		// many signers: (n-m) + 109m around 252
		m = 2
		n = 2 + 30 + k.Intn(8)
	}
	if k.Intn(8) == 0 {
		m, n = 601, 601+k.Intn(30) // around 65535
	}
	pkhs := make([][]byte, n)
	for i := range pkhs {
		if i < poolSize && n <= poolSize {
			pkhs[i] = poolKey(i).pkh
		} else {
			pkhs[i] = k.bytes(20)
		}
	}
	return lock{multiScript(m, pkhs), "multi", nil, m}
}

func figureCase(k *K) {
	l := k.anyScript()
	s := l.script
	rate, dustRate := k.rate(), k.dustRate()
	switch k.Intn(12) {
	case 0:
		rate = 0
	case 1:
		rate = float32(k.Intn(100000)) / 7
	}
	if k.Intn(6) == 0 {
		dustRate = k.rate()
	}
	cls := classify(s)
	size := outSize(s)
	k.Tracef("%s script of %d bytes %s rate %v dust rate %v", cls.kind, len(s), shortHex(string(s)), rate, dustRate)
	outFee := ceilFee(size, rate)
	lo, hi := dustRange(size, dustRate)
	eq := func(cat, what string, got, want interface{}) {
		k.Check(cat, fmt.Sprint(got) == fmt.Sprint(want), "%s is %v, should be %v", what, got, want)
	}
	dust := func(what string, got uint64) {
		k.Check("dust limits", got >= lo && got <= hi, "%s is %d, should be %d", what, got, lo)
	}
	k.Call("OutputSize", func() { eq("sizes", "output size", txb.OutputSize(s), size) })
	k.Call("LockingScriptOutputFee", func() { eq("fees", "output fee", txb.LockingScriptOutputFee(s, rate), outFee) })
	k.Call("DustLimit", func() { dust("dust limit", txb.DustLimit(size, dustRate)) })
	k.Call("DustLimitForOutput", func() {
		dust("dust limit of the output", txb.DustLimitForOutput(&wire.TxOut{Value: k.value(), LockingScript: s}, dustRate))
	})
	k.Call("DustLimitForLockingScript", func() { dust("dust limit of the script", txb.DustLimitForLockingScript(s, dustRate)) })
	k.Call("OutputFeeAndDustForLockingScript", func() {
		f, d := txb.OutputFeeAndDustForLockingScript(s, dustRate, rate)
		eq("fees", "output fee", f, outFee)
		dust("dust limit of the script", d)
	})
	if ra, ok := k.address(l); l.keys != nil && ok {
		k.Call("DustLimitForAddress", func() {
			d, err := txb.DustLimitForAddress(ra, dustRate)
			eq("answers", "error", err, nil)
			dust("dust limit of the address", d)
		})
		k.Call("OutputFeeAndDustForAddress", func() {
			f, d, err := txb.OutputFeeAndDustForAddress(ra, dustRate, rate)
			eq("answers", "error", err, nil)
			eq("fees", "output fee of the address", f, outFee)
			dust("dust limit of the address", d)
		})
		k.Call("AddressOutputFee", func() {
			f, err := txb.AddressOutputFee(ra, rate)
			eq("answers", "error", err, nil)
			eq("fees", "output fee of the address", f, outFee)
		})
	}

	in, supported := inSize(s)
	inFee := ceilFee(in, rate)
	u := k.utxo(l, k.value())
	errWant := func(what string, err error) {
		k.Check("answers", (err == nil) == supported, "%s: error %v for a %s script", what, err, cls.kind)
	}
	k.Call("UnlockingScriptSize", func() {
		n, err := txb.UnlockingScriptSize(s)
		errWant("unlocking size", err)
		if supported {
			eq("sizes", "unlocking size", n, cls.unlock)
		}
	})
	k.Call("InputSize", func() {
		n, err := txb.InputSize(s)
		errWant("input size", err)
		if supported {
			eq("sizes", "input size", n, in)
		}
	})
	k.Call("UTXOFee", func() {
		n, err := txb.UTXOFee(u, rate)
		errWant("fee of a spendable output", err)
		if supported {
			eq("fees", "fee of a spendable output", n, inFee)
		}
	})
	k.Call("UTXOInputSizeAndFee", func() {
		n, f, err := txb.UTXOInputSizeAndFee(u, rate)
		errWant("size of a spendable output", err)
		if supported {
			eq("sizes", "size of a spendable output", n, in)
			eq("fees", "fee of a spendable output", f, inFee)
		}
	})
	k.Call("LockingScriptInputFee", func() {
		f, err := txb.LockingScriptInputFee(s, rate)
		errWant("input fee", err)
		if supported {
			eq("fees", "input fee", f, inFee)
		}
	})
	k.Call("OutputTotalCost", func() {
		of, inf, err := txb.OutputTotalCost(s, rate)
		errWant("total cost", err)
		eq("fees", "output part of the total cost", of, outFee)
		if supported {
			eq("fees", "input part of the total cost", inf, inFee)
		}
	})
	n := []uint64{0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<64 - 1, k.Uint64() >> uint(k.Intn(64))}[k.Intn(14)]
	eq("sizes", fmt.Sprintf("prefix size of %d", n), txb.VarIntSerializeSize(n), varintLen(n))
	sz := k.Intn(3000000)
	eq("fees", "fee value", txb.EstimatedFeeValue(uint64(sz), float64(rate)), ceilFee(sz, rate))
	eq("fees", "fee value rounded down", txb.EstimatedFeeValueDown(uint64(sz), float64(rate)), floorFee(sz, rate))
	any := k.Float64() * math.Pow(10, float64(k.Intn(6)-3))
	flo, fhi := feeRange(sz, any)
	got := txb.EstimatedFeeValue(uint64(sz), any)
	k.Check("fees", got >= flo && got <= fhi, "fee of %d bytes at %v is %d, should be %d", sz, any, got, flo)
	k.Distinct("%s len%d unlock%d rate%s dust%v", cls.kind, len(s), cls.unlock, rateClass(rate), dustRate)
}

func totalsCase(k *K) {
	st := k.genState(stateOpts{many: true, huge: true, remainders: 4, unlockData: true})
	tx := st.tx
	if k.Intn(3) == 0 {
		// inputs of unknown kind are estimated like the most common kind
		k.addInput(st, k.lockUnknown(), k.value())
	}
	if k.Intn(4) == 0 {
		k.addInput(st, k.bigMulti(), k.value())
	}
	if k.Intn(6) == 0 {
		k.addDataInput(st, []uint64{252, 253, 254, 65535, 65536, 100000}[k.Intn(6)], k.value()+1)
	}
	if k.Intn(6) == 0 {
		// partly known: unlocking data only stands in for what is not
		i := len(tx.Inputs)
		if k.Intn(2) == 0 {
			k.addInput(st, k.lockSpendable(), 0)
		} else {
			k.addDataInput(st, 1, 1)
			tx.Inputs[i].Value = 1 + k.value()
		}
		tx.MsgTx.TxIn[i].UnlockingScript = k.unlockingData(uint64(1+k.Intn(400)), 1+k.value())
		k.Decide("partly known input")
	}
	if k.Intn(4) == 0 && len(tx.MsgTx.TxOut) > 0 {
		tx.MsgTx.TxOut[k.Intn(len(tx.MsgTx.TxOut))].Value = 2100000000000000 - uint64(k.Intn(100))
	}
	if k.Intn(4) == 0 && len(tx.Inputs) > 0 {
		// an input that is signed already
		i := k.Intn(len(tx.Inputs))
		if len(tx.Inputs[i].LockingScript) > 0 {
			tx.MsgTx.TxIn[i].UnlockingScript = k.bytes(1 + k.Intn(300))
			tx.MsgTx.TxIn[i].UnlockingScript[0] = 0x48
		}
	}
	if k.Intn(10) == 0 {
		tx.FeeRate = 0
	}
	k.judgeTotals(tx)
	if len(tx.Outputs) > 1000 || k.Intn(2) == 0 {
		return
	}
	// asked again after edits that keep the numbers of inputs and outputs
	for n := 1 + k.Intn(3); n > 0; n-- {
		k.resize(tx)
		k.Decide("asked again after an edit")
		k.judgeTotals(tx)
	}
}

// resize edits a builder in a way that changes its totals.
func (k *K) resize(tx *txb.TxBuilder) {
	if n := len(tx.Inputs); n > 0 && k.Intn(2) == 0 {
		i := k.Intn(n)
		switch k.Intn(3) {
		case 0:
			if len(tx.Inputs[i].LockingScript) > 0 {
				tx.Inputs[i].Value = k.value()
			}
		case 1:
			tx.MsgTx.TxIn[i].UnlockingScript = k.signedLike()
		default:
			u := k.utxo(k.lockSpendable(), k.value())
			k.Call("UpdateInputUTXO", func() { tx.UpdateInputUTXO(i, u) })
		}
		return
	}
	if n := len(tx.Outputs); n > 0 {
		i := k.Intn(n)
		switch k.Intn(4) {
		case 0:
			v := 1 + k.Uint64()%5000
			k.Call("AddValueToOutput", func() { tx.AddValueToOutput(uint32(i), v) })
		case 1:
			l := k.lockSpendable()
			k.Call("UpdateOutput", func() { tx.UpdateOutput(uint32(i), l.script) })
		case 2:
			tx.Outputs[i].IsRemainder = !tx.Outputs[i].IsRemainder
		default:
			tx.FeeRate = k.rate()
		}
		return
	}
	tx.FeeRate = k.rate()
}

// judgeTotals compares the totals of a builder with ones computed from its parts.
func (k *K) judgeTotals(tx *txb.TxBuilder) {
	s := k.traceState("builder", tx)
	eq := func(what string, got, want interface{}) {
		k.Check(what, fmt.Sprint(got) == fmt.Sprint(want), "%s is %v, should be %v", what, got, want)
	}
	noChange, rem := uint64(0), uint64(0)
	for i := range s.outs {
		if s.outs[i].remainder {
			rem += s.outs[i].value + floorFee(outSize([]byte(s.outs[i].script)), s.feeRate)
		} else {
			noChange += s.outs[i].value
		}
	}
	k.Call("EstimatedSize", func() { eq("estimated size", tx.EstimatedSize(), s.estSize()) })
	k.Call("EstimatedFee", func() { eq("estimated fee", tx.EstimatedFee(), s.estFee()) })
	k.Call("InputValue", func() { eq("input value", tx.InputValue(), s.inValue()) })
	k.Call("OutputValue", func() {
		eq("output value", tx.OutputValue(true), s.outValue())
		eq("output value without change", tx.OutputValue(false), noChange)
	})
	k.Call("ActualFee", func() { eq("actual fee", tx.ActualFee(), s.fee()) })
	fee := s.fee()
	if fee < 0 {
		fee = 0
	}
	k.Call("Fee", func() { eq("fee", tx.Fee(), fee) })
	k.Call("Remainder", func() { eq("remainder", tx.Remainder(), rem) })
	k.Distinct("ins%d outs%d rem%d neg%v rate%s", len(s.ins), len(s.outs), s.remainders(), s.fee() < 0, rateClass(s.feeRate))
	k.Sample(map[string]interface{}{"builder": s.brief(), "estimated_size": s.estSize(), "estimated_fee": s.estFee(), "fee": s.fee(), "remainder": rem})
}

// ---------------------------------------------------------------------------------------------

// sizer is an unlocker that only estimates.
type sizer struct{}

func (sizer) Unlock(context.Context, bitcoin_interpreter.TransactionWithOutputs, int) (bitcoin.Script, error) {
	return nil, bitcoin_interpreter.CantSign
}
func (sizer) SubUnlock(context.Context, bitcoin_interpreter.TransactionWithOutputs, int, int) (bitcoin.Script, error) {
	return nil, bitcoin_interpreter.CantSign
}
func (sizer) UnlockingSize(s bitcoin.Script) (int, error) { return fees.EstimateUnlockingSize(s) }
func (sizer) CanUnlock(s bitcoin.Script) bool             { return true }
func (sizer) CanPartiallyUnlock(s bitcoin.Script) bool    { return true }
func (u sizer) Copy() bitcoin_interpreter.Unlocker        { return u }

// standaloneCase compares the standalone calculations for a script.
func standaloneCase(k *K) {
	l := k.anyScript()
	s := l.script
	cls := classify(s)
	rate := k.rate()
	r64 := float64(rate)
	exactRate := true
	if k.Intn(3) == 0 {
		r64 = k.Float64() * 3
		exactRate = false
	}
	d64 := float64(k.dustRate())
	size := outSize(s)
	in, supported := inSize(s)
	k.Tracef("%s script of %d bytes %s rate %v dust rate %v", cls.kind, len(s), shortHex(string(s)), r64, d64)
	eq := func(cat, what string, got, want interface{}) {
		k.Check(cat, fmt.Sprint(got) == fmt.Sprint(want), "%s is %v, should be %v", what, got, want)
	}
	fee := func(what string, got uint64, n int) {
		lo, hi := feeRange(n, r64)
		k.Check("fees", got >= lo && got <= hi, "%s is %d, should be %d", what, got, lo)
		if exactRate {
			k.Check("fees", got == ceilFee(n, rate), "%s is %d, should be %d", what, got, ceilFee(n, rate))
		}
	}
	dust := func(what string, got uint64) {
		_, hi := feeRange((size+148)*3, d64)
		lo := uint64(math.Floor(float64((size+148)*3) * d64 * (1 - 1e-12)))
		if lo < 1 {
			lo = 1
		}
		if hi < 1 {
			hi = 1
		}
		k.Check("dust limits", got >= lo && got <= hi, "%s is %d, should be %d to %d", what, got, lo, hi)
	}
	k.Call("fees.EstimateUnlockingSize", func() {
		n, err := fees.EstimateUnlockingSize(s)
		k.Check("support", (err == nil) == supported, "unlocking size of a %s script: error %v", cls.kind, err)
		if supported {
			eq("sizes", "unlocking size", n, cls.unlock)
			b, err := txb.UnlockingScriptSize(s)
			k.Check("agrees with the builder", err == nil && b == n, "unlocking size is %d standalone and %d (%v) in the builder", n, b, err)
			k.Decide("supported " + cls.kind)
		}
	})
	k.Call("fees.OutputTotalCost", func() {
		o, i, err := fees.OutputTotalCost(s, r64)
		k.Check("support", (err == nil) == supported, "total cost of a %s script: error %v", cls.kind, err)
		fee("output part of the total cost", o, size)
		if supported {
			fee("input part of the total cost", i, in)
		} else {
			eq("fees", "input part of the total cost of an unsupported script", i, 0)
		}
	})
	k.Call("fees.OutputSize", func() { eq("sizes", "output size", fees.OutputSize(s), size) })
	eq("sizes", "output size for the script size", fees.OutputSizeForLockingScriptSize(len(s)), size)
	n := []int{0, 1, 107, 252, 253, 254, 65535, 65536, k.Intn(100000)}[k.Intn(9)]
	eq("sizes", "input size for the script size", fees.InputSizeForUnlockingScriptSize(n), inSizeForUnlock(n))
	fee("output fee", fees.OutputFeeForLockingScript(s, r64), size)
	f, d := fees.OutputFeeAndDustForLockingScript(s, d64, r64)
	fee("output fee", f, size)
	dust("dust limit", d)
	sz, d := fees.OutputSizeAndDustForLockingScript(s, d64)
	eq("sizes", "output size", sz, size)
	dust("dust limit", d)
	dust("dust limit", fees.DustLimit(size, d64))
	dust("dust limit", fees.DustLimitForOutput(&wire.TxOut{Value: 5, LockingScript: s}, d64))
	dust("dust limit", fees.DustLimitForLockingScript(s, d64))
	dust("dust limit", fees.DustLimitForLockingScriptSize(len(s), d64))
	sz = k.Intn(3000000)
	fee("fee value", fees.EstimateFeeValue(sz, r64), sz)
	k.Distinct("%s len%d unlock%d rate%s dust%v", cls.kind, len(s), cls.unlock, rateClass(float32(r64)), d64)
}

func standaloneTxCase(k *K) {
	st := k.genState(stateOpts{many: true, huge: true, unlockData: true})
	tx := st.tx
	if k.Intn(6) == 0 {
		k.addInput(st, k.bigMulti(), 1+k.value())
	}
	if k.Intn(6) == 0 {
		k.addDataInput(st, []uint64{252, 253, 254, 65535, 65536, 100000}[k.Intn(6)], k.value()+1)
	}
	if n := len(tx.MsgTx.TxOut); n > 0 && k.Intn(6) == 0 {
		tx.MsgTx.TxOut[k.Intn(n)].Value = k.Uint64() % 2100000000000001
	}
	if n := len(tx.Inputs); n > 0 && k.Intn(6) == 0 {
		if i := k.Intn(n); tx.Inputs[i].Value > 0 {
			tx.Inputs[i].Value = 1 + k.Uint64()%2100000000000000
		}
	}
	hole, unsupported, zero := false, false, false
	if k.Intn(10) == 0 {
		// nothing is known about this input
		tx.AddInput(wire.OutPoint{Hash: k.hash()}, nil, 0)
		if k.Intn(2) == 0 {
			tx.MsgTx.TxIn[len(tx.MsgTx.TxIn)-1].UnlockingScript = k.lockData().script
		}
	}
	if k.Intn(10) == 0 {
		k.addInput(st, k.lockUnknown(), 1+k.value())
	}
	if k.Intn(4) == 0 && len(tx.Inputs) > 0 {
		// signed already: the estimate stays the same
		i := k.Intn(len(tx.Inputs))
		if len(tx.Inputs[i].LockingScript) > 0 {
			tx.MsgTx.TxIn[i].UnlockingScript = append([]byte{0x48}, k.bytes(1+k.Intn(120))...)
		}
	}
	s := k.traceState("transaction", tx)
	e := &expanded_tx.ExpandedTx{Tx: tx.MsgTx}
	for i := range s.ins {
		e.SpentOutputs = append(e.SpentOutputs, &expanded_tx.Output{Value: tx.Inputs[i].Value, LockingScript: tx.Inputs[i].LockingScript})
		in := &s.ins[i]
		_, data := dataScripts.Load(in.unlock)
		if in.lock == "" && !data {
			hole = true
		}
		if in.lock != "" && classify([]byte(in.lock)).unlock < 0 {
			unsupported = true
		}
		if in.lock != "" && in.value == 0 {
			zero = true // a spent output worth nothing: left open
		}
	}
	eq := func(what string, got, want interface{}) {
		k.Check(what, fmt.Sprint(got) == fmt.Sprint(want), "%s is %v, should be %v", what, got, want)
	}
	rate := k.rate()
	k.Call("fees.EstimateSize", func() {
		n, err := fees.EstimateSize(e, sizer{})
		f, ferr := fees.EstimateFee(e, sizer{}, float64(rate))
		if hole || unsupported {
			k.Check("unknown size refused", err != nil && ferr != nil, "the size is given as %d although an input cannot be estimated", n)
			return
		}
		k.Check("size given", err == nil && ferr == nil, "no size: %v, %v", err, ferr)
		eq("size", n, s.estSize())
		eq("size agreeing with the builder", n, tx.EstimatedSize())
		eq("fee estimate", f, ceilFee(s.estSize(), rate))
	})
	for i := range s.ins {
		if i > 5 {
			break
		}
		k.Call("fees.EstimateInputSize", func() {
			n, err := fees.EstimateInputSize(tx.MsgTx.TxIn[i], tx.Inputs[i].LockingScript, sizer{})
			in := &s.ins[i]
			known := false
			if in.lock != "" {
				known = classify([]byte(in.lock)).unlock >= 0
			} else {
				_, known = dataScripts.Load(in.unlock)
			}
			k.Check("input size given", (err == nil) == known, "size of input %d: %v", i, err)
			if known {
				eq("input size", n, estInput([]byte(in.lock), []byte(in.unlock)))
			}
		})
	}
	k.Call("fees.OutputsValue", func() { eq("output value", fees.OutputsValue(e), s.outValue()) })
	if zero {
		k.Skip("spent output worth nothing")
		return
	}
	k.Call("fees.InputsValue", func() {
		v, err := fees.InputsValue(e)
		f, ferr := fees.Fee(e)
		if hole {
			k.Check("unknown value refused", err != nil && ferr != nil, "the input value is given as %d although an input is unknown", v)
			return
		}
		k.Check("value given", err == nil && ferr == nil, "no input value: %v, %v", err, ferr)
		eq("input value", v, s.inValue())
		eq("value agreeing with the builder", v, tx.InputValue())
		eq("fee", f, s.fee())
		eq("fee agreeing with the builder", f, tx.ActualFee())
	})
	k.Distinct("ins%d outs%d hole%v unsup%v neg%v", len(s.ins), len(s.outs), hole, unsupported, s.fee() < 0)
	k.Sample(map[string]interface{}{"transaction": s.brief(), "unknown_input": hole, "unsupported_input": unsupported})
}

// ---------------------------------------------------------------------------------------------

// oversizeCase has inputs described by data that claims sizes no transaction can have. There is no
// right figure for them other than the claimed one, so anything else has to come with an error.
func oversizeCase(k *K) {
	size := []uint64{1 << 32, 1<<32 + 41, 1 << 33, 1 << 40, 1<<62 + 7, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 41, 1<<64 - 9, 1<<64 - 1}[k.Intn(11)]
	data := k.unlockingData(size, 1+k.value())
	tx := txb.NewTxBuilder(k.rate(), k.dustRate())
	l := k.lockP2PKH()
	if k.Intn(2) == 0 {
		tx.AddInputUTXO(k.utxo(l, 1+k.value()))
	}
	tx.AddInput(wire.OutPoint{Hash: k.hash(), Index: k.outIndex()}, nil, 0)
	at := len(tx.Inputs) - 1
	tx.MsgTx.TxIn[at].UnlockingScript = data
	tx.AddOutput(l.script, 100000, false, false)
	e := &expanded_tx.ExpandedTx{Tx: tx.MsgTx}
	for _, in := range tx.Inputs {
		e.SpentOutputs = append(e.SpentOutputs, &expanded_tx.Output{Value: in.Value, LockingScript: in.LockingScript})
	}
	k.Tracef("input %d is said to need %d bytes to unlock", at, size)
	right := func(n int) bool { return n > 0 && uint64(n) >= size && uint64(n)-size < 1000 }
	k.Call("fees.EstimateInputSize", func() {
		n, err := fees.EstimateInputSize(tx.MsgTx.TxIn[at], nil, sizer{})
		k.Check("impossible size refused", err != nil || right(n), "the input size is given as %d although unlocking needs %d", n, size)
	})
	k.Call("fees.EstimateSize", func() {
		n, err := fees.EstimateSize(e, sizer{})
		k.Check("impossible size refused", err != nil || right(n), "the size is given as %d although unlocking needs %d", n, size)
	})
	k.Call("fees.EstimateFee", func() {
		f, err := fees.EstimateFee(e, sizer{}, 1)
		k.Check("impossible size refused", err != nil || f >= size, "the fee is given as %d although unlocking needs %d bytes", f, size)
	})
	k.Distinct("oversize %d at %d", size, at)
}

func firstValue(tx *txb.TxBuilder) uint64 {
	if len(tx.Inputs) == 0 {
		return 0
	}
	return tx.Inputs[0].Value
}

// adjustCase follows a builder through repeated fee adjustments.
func adjustCase(k *K) {
	st := k.genState(stateOpts{unlockData: true})
	tx := st.tx
	if tx.FeeRate > 60 {
		tx.FeeRate = 5
	}
	if k.Intn(20) == 0 {
		for n := k.boundaryCount() - len(tx.Outputs); n > 0; n-- {
			tx.AddOutput(k.lockP2PKH().script, 100000, false, false)
		}
	}
	if k.Intn(2) == 0 && len(tx.Outputs) > 0 {
		i := k.Intn(len(tx.Outputs))
		if classify(tx.MsgTx.TxOut[i].LockingScript).unlock >= 0 {
			tx.Outputs[i].IsRemainder = true
		}
	}
	if len(tx.ChangeScript) > 0 && classify(tx.ChangeScript).unlock < 0 {
		tx.ChangeScript = k.lockSpendable().script
	}
	if k.Intn(3) != 0 && len(tx.Inputs) > 0 && len(tx.Inputs[0].LockingScript) > 0 {
		// a fee of any size, also negative, without being far off
		s := takeSnap(tx)
		want := int64(s.inValue()) - s.fee() + k.Int63n(200000) - 20000 - (int64(s.inValue()) - int64(tx.Inputs[0].Value))
		if want > 0 {
			tx.Inputs[0].Value = uint64(want)
		}
	}
	libAdded := false
	for step := 1 + k.Intn(5); step > 0; step-- {
		pre := k.traceState("before", tx)
		rate := pre.feeRate
		r := pre.remainder()
		var oc, ic, v uint64
		if r >= 0 {
			oc, ic = changeCost([]byte(pre.outs[r].script), rate)
			v = pre.outs[r].value
		} else if pre.change != "" {
			oc, ic = changeCost([]byte(pre.change), rate)
		} else {
			oc, ic = changeCost(p2pkhScript(make([]byte, 20)), rate)
		}
		// what another output costs
		delta := int64(0)
		if r < 0 {
			more := pre.clone()
			sc := pre.change
			if sc == "" {
				sc = string(p2pkhScript(make([]byte, 20)))
			}
			more.outs = append(more.outs, snapOut{script: sc})
			delta = int64(more.estFee()) - int64(pre.estFee())
		}

		var a int64
		var done bool
		var err error
		op := k.Intn(6)
		name := "AdjustFee"
		switch op {
		case 0:
			name = "CalculateFee"
			a = int64(pre.estFee()) - pre.fee()
			if k.Intn(2) == 0 && r >= 0 {
				// around the thresholds
				want := []int64{0, 1, -1, int64(v), int64(v) - int64(oc+ic), int64(v) - int64(oc+ic) + 1, -int64(v)}[k.Intn(7)]
				if nv := int64(firstValue(tx)) + a - want; nv > 0 && len(tx.Inputs) > 0 && len(tx.Inputs[0].LockingScript) > 0 {
					tx.Inputs[0].Value = uint64(nv)
					pre = k.traceState("set up", tx)
					a = int64(pre.estFee()) - pre.fee()
				}
			}
			k.Call(name, func() { err = tx.CalculateFee() })
		case 1:
			name = "ZeroizeFee"
			a = -pre.fee()
			k.Call(name, func() { err = tx.ZeroizeFee() })
		default:
			j := int64(k.Intn(7)) - 3
			switch k.Intn(8) {
			case 0:
				a = int64(v) + j
			case 1:
				a = int64(v) - int64(oc+ic) + j
			case 2:
				a = -(delta + int64(oc+ic)) + j
			case 3:
				a = -delta + j
			case 4:
				a = k.Int63n(3000) - 1500
			case 5:
				a = -k.Int63n(1000000)
			case 6:
				a = k.Int63n(int64(v) + 1000)
			case 7:
				a = -(delta + 2*int64(oc+ic)) + j
			}
			k.Call(name, func() { done, err = tx.AdjustFee(a) })
		}
		post := k.traceState(fmt.Sprintf("after %s by %d", name, a), tx)
		k.Tracef("  result: %v", err)

		// everything but the fee carrying output is left alone
		rest := post.clone()
		absorbed, removed, added := false, false, false
		switch {
		case len(post.outs) == len(pre.outs):
			if r >= 0 && len(rest.outs) > r {
				absorbed = rest.outs[r].value != v
				rest.outs[r].value = v
			}
		case len(post.outs) == len(pre.outs)-1 && r >= 0:
			removed = true
			rest.outs = append(append(append([]snapOut(nil), post.outs[:r]...), pre.outs[r]), post.outs[r:]...)
		case len(post.outs) == len(pre.outs)+1:
			added = true
			rest.outs = post.outs[:len(pre.outs)]
		}
		d := pre.diff(rest)
		k.Check("rest left alone", d == "", "%s by %d changed something other than the change: %s", name, a, d)
		dFee := post.fee() - pre.fee()

		outcome := "refused"
		if err != nil {
			k.Check("refusal changes nothing", pre.diff(post) == "", "refused but changed: %s", pre.diff(post))
		}
		switch {
		case a == 0:
			k.Check("no adjustment", err == nil && pre.diff(post) == "", "adjusting by nothing: %v %s", err, pre.diff(post))
			outcome = "none"
		case a > 0 && r < 0:
			k.Check("no change to take from", errors.Cause(err) == txb.ErrInsufficientValue, "raising the fee by %d without change gives %v", a, err)
		case a > 0:
			left := int64(v) - a
			limit := int64(oc + ic)
			switch {
			case left > limit:
				k.Check("fee raised exactly", err == nil && absorbed && dFee == a, "fee raised by %d, should be %d; error %v", dFee, a, err)
				outcome = "raised"
			case left >= limit-1 && err == nil && absorbed:
				k.Check("fee raised exactly", dFee == a, "fee raised by %d, should be %d", dFee, a)
				outcome = "raised"
			case libAdded && left >= 0:
				k.Check("library's change removed", err == nil && removed && dFee == int64(v), "too little would be left of the change the library added: removed %v, fee raised by %d, error %v", removed, dFee, err)
				outcome = "removed"
			case libAdded && err == nil:
				k.Check("library's change removed", removed, "raising the fee by %d with %d of change: removed %v", a, v, removed)
				outcome = "removed"
			default:
				k.Check("others' change kept", errors.Cause(err) == txb.ErrInsufficientValue, "raising the fee by %d with %d of change gives %v", a, v, err)
			}
		case r >= 0:
			k.Check("fee lowered exactly", err == nil && absorbed && dFee == a, "fee changed by %d, should be %d; error %v", dFee, a, err)
			outcome = "lowered"
		default:
			// lowering without a remainder
			left := -a - delta
			limit := int64(oc + ic)
			if pre.change == "" {
				switch {
				case left > 2*limit+2:
					k.Check("change destination asked for", errors.Cause(err) == txb.ErrChangeAddressNeeded, "lowering the fee by %d with nowhere to put it gives %v", -a, err)
				case left <= limit:
					k.Check("too little left to the fee", err == nil && !added, "lowering the fee by %d, too little for an output: %v", -a, err)
				default:
					k.Check("no destination", !added && (err == nil || errors.Cause(err) == txb.ErrChangeAddressNeeded), "lowering the fee by %d gives %v", -a, err)
				}
				break
			}
			if added {
				o := post.outs[len(post.outs)-1]
				k.Check("change added", o.script == pre.change && o.remainder && !o.dust && o.keyID == pre.changeKey, "the added output is %s", o)
				k.Check("change pays for itself", dFee == a+delta, "fee changed by %d, should be %d for the adjustment and %d for the output", dFee, a, delta)
				k.Check("enough for change", left >= limit, "an output was added for %d although it costs %d to have and to spend", left, limit)
				outcome = "added"
			} else {
				k.Check("too little left to the fee", left <= limit+1 && dFee == 0 && err == nil, "nothing was added for %d although it costs only %d to have and to spend; error %v", left, limit, err)
				outcome = "left"
			}
		}
		if err == nil && name == "AdjustFee" {
			k.Check("nothing left to adjust", done == (!absorbed && !added), "adjusting by %d: change altered %v, added %v, removed %v; reported that no more can be done: %v", a, absorbed, added, removed, done)
		}
		if err == nil && name == "CalculateFee" {
			if absorbed || added {
				k.Check("fee calculated exactly", post.fee() == int64(post.estFee()), "fee is %d, should be the estimate %d", post.fee(), post.estFee())
			} else {
				k.Check("fee calculated", post.fee() >= int64(post.estFee()), "fee is %d, below the estimate %d", post.fee(), post.estFee())
			}
		}
		if err == nil && name == "ZeroizeFee" && absorbed {
			k.Check("fee zeroized", post.fee() == 0, "fee is %d", post.fee())
		}
		if added {
			libAdded = true
		}
		if removed {
			libAdded = false
		}
		k.Decide("outcome " + outcome)
		k.Distinct("%s %s rem%v lib%v change%v outs%d rate%s", name, outcome, r >= 0, libAdded, pre.change != "", len(pre.outs), rateClass(rate))
		k.Sample(map[string]interface{}{"call": fmt.Sprintf("%s %d", name, a), "before": pre.brief(), "outcome": outcome, "fee_change": dFee})
		if k.Intn(6) == 0 {
			// the library's memory of its change goes with a copy
			c := tx.Copy()
			tx = &c
		}
	}
}

func init() {
	register("C11", "Scripts of every kind and of lengths across every prefix boundary with rates of every size are put through every calculation, and builders with up to 256 inputs and outputs and all kinds of inputs are asked for their totals, half of them again after edits that keep the numbers of inputs and outputs; all figures are compared with ones computed from the wire format. Distinct counts combinations of script kind, length, unlocking size and rates, and of counts and kinds of totals.", func(c *C) {
		c.Require("sizes", 50000)
		c.Require("fees", 50000)
		c.Require("dust limits", 50000)
		c.Require("estimated size", 10000)
		c.Require("remainder", 10000)
		c.Require("asked again after an edit", 5000)
		c.Require("partly known input", 2000)
		c.Cases("figures", c.Pick(40000, 400000), figureCase)
		c.Cases("totals", c.Pick(40000, 400000), totalsCase)
	})
	register("C22", "Scripts of every kind and length with rates of every size are put through every standalone calculation, and transactions with known, unknown, unsupported and data-described inputs through the totals; all figures are compared with ones computed from the wire format and with the builder's, and claimed sizes that are impossible have to be refused. Distinct counts combinations of script kind, length, unlocking size and rates, and of counts and kinds of inputs.", func(c *C) {
		c.Require("sizes", 50000)
		c.Require("support", 20000)
		c.Require("supported agent", 1000)
		c.Require("size", 5000)
		c.Require("unknown size refused", 500)
		c.Require("fee", 5000)
		c.Cases("scripts", c.Pick(40000, 400000), standaloneCase)
		c.Require("impossible size refused", 3000)
		c.Cases("transactions", c.Pick(40000, 400000), standaloneTxCase)
		c.Cases("impossible sizes", c.Pick(2000, 20000), oversizeCase)
	})
	register("C23", "Builders with any fee, with and without remainder and change destination, at the 252 boundary, go through 1-5 fee adjustments, calculations and zeroizations by amounts around each threshold; every step is compared with a model that remembers which change the library added. Distinct counts combinations of call, outcome, remainder, origin of the change, destination, number of outputs and rate.", func(c *C) {
		for _, o := range []string{"raised", "lowered", "removed", "added", "left", "refused"} {
			c.Require("outcome "+o, 300)
		}
		c.Require("fee calculated exactly", 300)
		c.Require("fee zeroized", 300)
		c.Cases("adjust", c.Pick(80000, 800000), adjustCase)
	})
}
