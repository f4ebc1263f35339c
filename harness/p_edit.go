package main

import (
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// What a call is expected to answer.
const (
	mustAccept = iota
	mustRefuse
	mayRefuse
)

// editOp is one call on a builder with fixed arguments, so that it can be repeated on a copy, and
// what the property says about it.
type editOp struct {
	name  string
	args  string
	run   func(tx *txb.TxBuilder) error
	want  func(pre *snap) (int, error)           // expected answer and, if refused, the cause (nil for any)
	apply func(m, post *snap) (complaint string) // effect on the model; post is what was observed, for details left open
}

func (o *editOp) String() string { return o.name + "(" + o.args + ")" }

func accept(*snap) (int, error) { return mustAccept, nil }

// dustRange gives the dust limit by exact and by single precision arithmetic.
func dustRange(size int, rate float32) (lo, hi uint64) {
	lo = dustLimit(size, rate)
	hi = uint64(float32((size+148)*3) * rate)
	if hi < 1 {
		hi = 1
	}
	if hi < lo {
		lo, hi = hi, lo
	}
	return
}

func isData(s string) bool {
	return len(s) > 0 && s[0] == 0x6a || len(s) > 1 && s[0] == 0 && s[1] == 0x6a
}

// history generates edits for a builder.
type history struct {
	k       *K
	points  []wire.OutPoint // small set to draw outpoints from, or nil for fresh ones
	scripts []lock
	maxOuts int
	lockIn  func() lock                    // scripts of inputs, or nil for any whose size can be estimated
	exist   map[wire.OutPoint]bitcoin.UTXO // the outputs that exist, if an outpoint always stands for the same one
}

func (k *K) newHistory(small bool) *history {
	h := &history{k: k, maxOuts: 12}
	if small {
		h.points = k.similarOutpoints()
	}
	for i := 0; i < 4; i++ {
		h.scripts = append(h.scripts, k.lockOutput())
	}
	return h
}

// similarOutpoints are outpoints that agree in hash, in index or in most bytes of the hash.
func (k *K) similarOutpoints() []wire.OutPoint {
	base := k.hash()
	var r []wire.OutPoint
	hashes := []bitcoin.Hash32{base}
	for _, b := range []int{0, 31, k.Intn(32)} {
		h := base
		h[b] ^= byte(1 << uint(k.Intn(8)))
		hashes = append(hashes, h)
	}
	if k.Intn(4) == 0 {
		hashes = append(hashes, bitcoin.Hash32{})
	}
	indexes := []uint32{0, 1, uint32(k.Intn(5)), 256, 65536, 1 << 24, 1 << 31, 0xffffffff}
	for n := 3 + k.Intn(5); n > 0; n-- {
		r = append(r, wire.OutPoint{Hash: hashes[k.Intn(len(hashes))], Index: indexes[k.Intn(len(indexes))]})
	}
	return r
}

func (h *history) outpoint() wire.OutPoint {
	if h.points == nil {
		return wire.OutPoint{Hash: h.k.hash(), Index: h.k.outIndex()}
	}
	return h.points[h.k.Intn(len(h.points))]
}

func (h *history) script() lock {
	if h.k.Intn(3) == 0 {
		return h.k.lockOutput()
	}
	return h.scripts[h.k.Intn(len(h.scripts))]
}

func (h *history) utxo(p wire.OutPoint) bitcoin.UTXO {
	lockIn := h.k.lockSized
	if h.lockIn != nil {
		lockIn = h.lockIn
	}
	return h.existing(p, h.k.utxo(lockIn(), h.k.value()))
}

// existing places an output at an outpoint, unless there is one already.
func (h *history) existing(p wire.OutPoint, u bitcoin.UTXO) bitcoin.UTXO {
	if e, ok := h.exist[p]; ok {
		return e
	}
	u.Hash, u.Index = p.Hash, p.Index
	if h.exist != nil {
		h.exist[p] = u
	}
	return u
}

// worth is a spendable output of a value.
func (h *history) worth(value uint64) bitcoin.UTXO {
	return h.existing(h.outpoint(), h.k.utxo(h.lockIn(), value))
}

func (s *snap) spends(p wire.OutPoint, except int) bool {
	for i := range s.ins {
		if i != except && s.ins[i].hash == p.Hash && s.ins[i].index == p.Index {
			return true
		}
	}
	return false
}

func newIn(p wire.OutPoint, script []byte, value uint64, keyID string) snapIn {
	return snapIn{hash: p.Hash, index: p.Index, seq: 0xffffffff, lock: string(script), value: value, keyID: keyID}
}

func (h *history) edit(s *snap) *editOp {
	k := h.k
	for {
		var o *editOp
		if k.Intn(5) < 2 {
			o = h.inputEdit(s)
		} else {
			o = h.outputEdit(s)
		}
		if o != nil {
			return o
		}
	}
}

// position picks one up to n, or sometimes beyond.
func (h *history) position(n int) int {
	k := h.k
	if k.Intn(10) == 0 {
		if k.Intn(2) == 0 {
			return n
		}
		return n + 1 + k.Intn(3)
	}
	if n == 0 {
		return 0
	}
	return k.Intn(n)
}

func (h *history) inputEdit(s *snap) *editOp {
	k := h.k
	p := h.outpoint()
	u := h.utxo(p)
	if h.lockIn == nil && h.exist == nil && k.Intn(30) == 0 {
		u.LockingScript = nil // not known yet
		if k.Intn(2) == 0 {
			u.Value = 0
		}
	}
	n := len(s.ins)
	dup := func(except int) func(*snap) (int, error) {
		return func(pre *snap) (int, error) {
			if pre.spends(p, except) {
				return mustRefuse, txb.ErrDuplicateInput
			}
			return mustAccept, nil
		}
	}
	switch k.Intn(6) {
	case 0, 1:
		return &editOp{"AddInputUTXO", fmt.Sprintf("%x..:%d value %d", p.Hash[:4], p.Index, u.Value),
			func(tx *txb.TxBuilder) error { return tx.AddInputUTXO(u) },
			dup(-1),
			func(m, post *snap) string {
				m.ins = append(m.ins, newIn(p, u.LockingScript, u.Value, u.KeyID))
				return ""
			}}
	case 2:
		return &editOp{"AddInput", fmt.Sprintf("%x..:%d value %d", p.Hash[:4], p.Index, u.Value),
			func(tx *txb.TxBuilder) error { return tx.AddInput(p, u.LockingScript, u.Value) },
			dup(-1),
			func(m, post *snap) string {
				m.ins = append(m.ins, newIn(p, u.LockingScript, u.Value, ""))
				return ""
			}}
	case 3:
		i := h.position(n + 1)
		return &editOp{"InsertInput", fmt.Sprintf("%d, %x..:%d value %d", i, p.Hash[:4], p.Index, u.Value),
			func(tx *txb.TxBuilder) error { return tx.InsertInput(i, u) },
			func(pre *snap) (int, error) {
				if i > len(pre.ins) {
					return mustRefuse, nil
				}
				return dup(-1)(pre)
			},
			func(m, post *snap) string {
				m.ins = append(m.ins[:i:i], append([]snapIn{newIn(p, u.LockingScript, u.Value, u.KeyID)}, m.ins[i:]...)...)
				return ""
			}}
	case 4:
		i := h.position(n)
		if i < n && k.Intn(3) == 0 {
			// to its own outpoint
			p = wire.OutPoint{Hash: s.ins[i].hash, Index: s.ins[i].index}
			u = h.existing(p, u)
		}
		return &editOp{"UpdateInputUTXO", fmt.Sprintf("%d, %x..:%d value %d", i, p.Hash[:4], p.Index, u.Value),
			func(tx *txb.TxBuilder) error { return tx.UpdateInputUTXO(i, u) },
			func(pre *snap) (int, error) {
				if i >= len(pre.ins) {
					return mustRefuse, nil
				}
				return dup(i)(pre)
			},
			func(m, post *snap) string {
				in := newIn(p, u.LockingScript, u.Value, u.KeyID)
				in.seq, in.unlock = m.ins[i].seq, m.ins[i].unlock
				if post.ins[i].unlock == "" {
					in.unlock = "" // left open whether an old signature is kept
				}
				m.ins[i] = in
				return ""
			}}
	default:
		i := h.position(n)
		return &editOp{"RemoveInput", fmt.Sprintf("%d", i),
			func(tx *txb.TxBuilder) error { return tx.RemoveInput(i) },
			func(pre *snap) (int, error) {
				if i >= len(pre.ins) {
					return mustRefuse, nil
				}
				return mustAccept, nil
			},
			func(m, post *snap) string {
				m.ins = append(m.ins[:i:i], m.ins[i+1:]...)
				return ""
			}}
	}
}

// newOut is the expected output of an addition; the dust amount is taken from the observation if it
// is in range.
func newOut(m *snap, script []byte, value uint64, remainder, dust bool, got *snapOut) (snapOut, string) {
	o := snapOut{script: string(script), value: value, remainder: remainder, dust: dust}
	if dust {
		lo, hi := dustRange(outSize(script), m.dustRate)
		if got.value < lo || got.value > hi {
			return o, fmt.Sprintf("dust output is worth %d, the dust limit is %d", got.value, lo)
		}
		o.value = got.value
	}
	return o, ""
}

// outputDecision tells when an output of this value has to be accepted.
func outputDecision(pre *snap, script []byte, value uint64, remainder, dust, sendMax bool) int {
	if dust || isData(string(script)) || sendMax && remainder {
		return mustAccept
	}
	fee := ceilFee(outSize(script), pre.feeRate)
	_, d := dustRange(outSize(script), pre.dustRate)
	if value >= fee && value >= d {
		return mustAccept
	}
	return mayRefuse
}

func (h *history) outputEdit(s *snap) *editOp {
	k := h.k
	n := len(s.outs)
	inRange := func(i int, then func(pre *snap) (int, error)) func(pre *snap) (int, error) {
		return func(pre *snap) (int, error) {
			if i >= len(pre.outs) {
				return mustRefuse, nil
			}
			return then(pre)
		}
	}
	l := h.script()
	value := k.outAmount(l.script, s.feeRate)
	if k.Intn(5) == 0 {
		value = uint64(k.Intn(int(ceilFee(outSize(l.script), s.feeRate)) + 2))
	}
	remainder, dust := k.Intn(6) == 0, k.Intn(6) == 0
	kind := k.Intn(14)
	if n >= h.maxOuts && kind < 6 {
		kind = 6
	}
	switch kind {
	case 0, 1:
		return &editOp{"AddOutput", fmt.Sprintf("%s, %d, %v, %v", shortHex(string(l.script)), value, remainder, dust),
			func(tx *txb.TxBuilder) error { return tx.AddOutput(l.script, value, remainder, dust) },
			func(pre *snap) (int, error) {
				return outputDecision(pre, l.script, value, remainder, dust, pre.sendMax), nil
			},
			func(m, post *snap) string {
				o, c := newOut(m, l.script, value, remainder, dust, post.lastOut())
				m.outs = append(m.outs, o)
				return c
			}}
	case 2, 3:
		i := h.position(n + 1)
		return &editOp{"InsertOutput", fmt.Sprintf("%d, %s, %d, %v, %v", i, shortHex(string(l.script)), value, remainder, dust),
			func(tx *txb.TxBuilder) error { return tx.InsertOutput(i, l.script, value, remainder, dust) },
			func(pre *snap) (int, error) {
				if i > len(pre.outs) {
					return mustRefuse, nil
				}
				return outputDecision(pre, l.script, value, remainder, dust, pre.sendMax), nil
			},
			func(m, post *snap) string {
				got := &snapOut{}
				if i < len(post.outs) {
					got = &post.outs[i]
				}
				o, c := newOut(m, l.script, value, remainder, dust, got)
				m.outs = append(m.outs[:i:i], append([]snapOut{o}, m.outs[i:]...)...)
				return c
			}}
	case 4:
		l := k.lockSpendable()
		ra, ok := k.address(l)
		if !ok {
			return nil
		}
		empty := k.Intn(8) == 0
		if empty {
			ra = bitcoin.RawAddress{}
		}
		value := k.outAmount(l.script, s.feeRate)
		if k.Intn(5) == 0 {
			value = uint64(k.Intn(int(ceilFee(outSize(l.script), s.feeRate)) + 2))
		}
		decide := func(pre *snap, remainder, dust, sendMax bool) (int, error) {
			if empty {
				return mustRefuse, nil
			}
			return outputDecision(pre, l.script, value, remainder, dust, sendMax), nil
		}
		switch k.Intn(3) {
		case 0:
			return &editOp{"AddPaymentOutput", fmt.Sprintf("%s, %d, %v", shortHex(string(l.script)), value, remainder),
				func(tx *txb.TxBuilder) error { return tx.AddPaymentOutput(ra, value, remainder) },
				func(pre *snap) (int, error) { return decide(pre, remainder, false, pre.sendMax) },
				func(m, post *snap) string {
					o, c := newOut(m, l.script, value, remainder, false, post.lastOut())
					m.outs = append(m.outs, o)
					return c
				}}
		case 1:
			return &editOp{"AddDustOutput", fmt.Sprintf("%s, %v", shortHex(string(l.script)), remainder),
				func(tx *txb.TxBuilder) error { return tx.AddDustOutput(ra, remainder) },
				func(pre *snap) (int, error) { return decide(pre, remainder, true, pre.sendMax) },
				func(m, post *snap) string {
					o, c := newOut(m, l.script, 0, remainder, true, post.lastOut())
					m.outs = append(m.outs, o)
					return c
				}}
		default:
			return &editOp{"AddMaxOutput", shortHex(string(l.script)),
				func(tx *txb.TxBuilder) error { return tx.AddMaxOutput(ra) },
				func(pre *snap) (int, error) { return decide(pre, true, false, true) },
				func(m, post *snap) string {
					m.sendMax = true
					o, c := newOut(m, l.script, 0, true, false, post.lastOut())
					m.outs = append(m.outs, o)
					return c
				}}
		}
	case 5:
		if k.Intn(2) == 0 {
			return &editOp{"AddMaxScriptOutput", shortHex(string(l.script)),
				func(tx *txb.TxBuilder) error { return tx.AddMaxScriptOutput(l.script) },
				accept,
				func(m, post *snap) string {
					m.sendMax = true
					m.outs = append(m.outs, snapOut{script: string(l.script), remainder: true})
					return ""
				}}
		}
		var outs []snapOut
		for c := k.Intn(4); c > 0; c-- {
			l := h.script()
			outs = append(outs, snapOut{script: string(l.script), value: k.value(), remainder: k.Intn(4) == 0, dust: k.Intn(4) == 0, keyID: k.ident()})
		}
		return &editOp{"AddOutputs", fmt.Sprintf("%v", outs),
			func(tx *txb.TxBuilder) error {
				var list []*txb.Output
				for _, o := range outs {
					list = append(list, &txb.Output{
						TxOut:      wire.TxOut{LockingScript: bitcoin.Script(o.script), Value: o.value},
						Supplement: txb.OutputSupplement{IsRemainder: o.remainder, IsDust: o.dust, KeyID: o.keyID},
					})
				}
				tx.AddOutputs(list)
				return nil
			},
			accept,
			func(m, post *snap) string {
				m.outs = append(m.outs, outs...)
				return ""
			}}
	case 6, 7:
		i := h.position(n)
		return &editOp{"RemoveOutput", fmt.Sprintf("%d", i),
			func(tx *txb.TxBuilder) error { return tx.RemoveOutput(i) },
			inRange(i, accept),
			func(m, post *snap) string {
				m.outs = append(m.outs[:i:i], m.outs[i+1:]...)
				return ""
			}}
	case 8, 9:
		i := h.position(n)
		add := uint64(k.Intn(2000))
		if k.Intn(3) == 0 {
			add = uint64(k.Intn(1000000))
		}
		wrap := i < n && s.outs[i].value > 0 && !s.outs[i].dust && k.Intn(20) == 0
		if wrap {
			// just more than fits
			add = -s.outs[i].value + uint64(k.Int63n(int64(s.outs[i].value%(1<<40))+1))
		} else if i < n {
			if lo, _ := dustRange(outSize([]byte(s.outs[i].script)), s.dustRate); k.Intn(3) == 0 {
				add = lo + uint64(k.Intn(5)) - 2
				if lo < 2 {
					add = lo
				}
			}
		}
		return &editOp{"AddValueToOutput", fmt.Sprintf("%d, %d", i, add),
			func(tx *txb.TxBuilder) error { return tx.AddValueToOutput(uint32(i), add) },
			inRange(i, func(pre *snap) (int, error) {
				if pre.outs[i].dust {
					lo, hi := dustRange(outSize([]byte(pre.outs[i].script)), pre.dustRate)
					if add < lo {
						return mustRefuse, txb.ErrBelowDustValue
					} else if add < hi {
						return mayRefuse, nil
					}
				} else if pre.outs[i].value+add < add {
					return mustRefuse, nil
				}
				return mustAccept, nil
			}),
			func(m, post *snap) string {
				if m.outs[i].dust {
					m.outs[i].dust = false
					m.outs[i].value = add
				} else {
					m.outs[i].value += add
				}
				return ""
			}}
	case 10:
		i := h.position(n)
		sub := uint64(k.Intn(2000))
		if i < n {
			v := s.outs[i].value
			lo, _ := dustRange(outSize([]byte(s.outs[i].script)), s.dustRate)
			switch k.Intn(4) {
			case 0:
				sub = v
			case 1:
				sub = v + uint64(k.Intn(3))
			case 2:
				if v > lo+3 {
					sub = v - lo + uint64(k.Intn(5)) - 2
				}
			case 3:
				if v > 0 {
					sub = uint64(k.Int63n(int64(v)))
				}
			}
		}
		return &editOp{"SubtractValueFromOutput", fmt.Sprintf("%d, %d", i, sub),
			func(tx *txb.TxBuilder) error { return tx.SubtractValueFromOutput(uint32(i), sub) },
			inRange(i, func(pre *snap) (int, error) {
				if pre.outs[i].value < sub {
					return mustRefuse, nil
				}
				lo, hi := dustRange(outSize([]byte(pre.outs[i].script)), pre.dustRate)
				left := pre.outs[i].value - sub
				if left >= hi {
					return mustAccept, nil
				} else if left < lo && sub > 0 {
					return mustRefuse, nil
				}
				return mayRefuse, nil
			}),
			func(m, post *snap) string {
				m.outs[i].value -= sub
				return ""
			}}
	case 11:
		i := h.position(n)
		return &editOp{"SetOutputToDust", fmt.Sprintf("%d", i),
			func(tx *txb.TxBuilder) error { return tx.SetOutputToDust(uint32(i)) },
			inRange(i, accept),
			func(m, post *snap) string {
				o, c := newOut(m, []byte(m.outs[i].script), 0, m.outs[i].remainder, true, &post.outs[i])
				m.outs[i].dust, m.outs[i].value = true, o.value
				return c
			}}
	case 12:
		i := h.position(n)
		return &editOp{"UpdateOutput", fmt.Sprintf("%d, %s", i, shortHex(string(l.script))),
			func(tx *txb.TxBuilder) error { return tx.UpdateOutput(uint32(i), l.script) },
			inRange(i, accept),
			func(m, post *snap) string {
				m.outs[i].script = string(l.script)
				return ""
			}}
	default:
		if n > 0 && k.Intn(2) == 0 {
			// a script that is being paid to
			l = lock{script: bitcoin.Script(s.outs[k.Intn(n)].script)}
		}
		id := k.ident()
		apply := func(m, post *snap) string {
			m.change, m.changeKey = string(l.script), id
			for i := range m.outs {
				if m.outs[i].script == string(l.script) {
					m.outs[i].remainder = true
					m.outs[i].keyID = id
				}
			}
			return ""
		}
		if k.Intn(2) == 0 {
			l = k.lockSpendable()
			if n > 0 && k.Intn(2) == 0 {
				if c := lockOfScript([]byte(s.outs[k.Intn(n)].script)); c.required > 0 && len(c.keys) > 0 {
					l = c
				}
			}
			ra, ok := k.address(l)
			if !ok {
				return nil
			}
			empty := k.Intn(8) == 0
			if empty {
				ra = bitcoin.RawAddress{}
			}
			return &editOp{"SetChangeAddress", fmt.Sprintf("%s, %q", shortHex(string(l.script)), id),
				func(tx *txb.TxBuilder) error { return tx.SetChangeAddress(ra, id) },
				func(*snap) (int, error) {
					if empty {
						return mustRefuse, nil
					}
					return mustAccept, nil
				}, apply}
		}
		return &editOp{"SetChangeLockingScript", fmt.Sprintf("%s, %q", shortHex(string(l.script)), id),
			func(tx *txb.TxBuilder) error { return tx.SetChangeLockingScript(l.script, id) },
			accept, apply}
	}
}

func (s *snap) lastOut() *snapOut {
	if len(s.outs) == 0 {
		return &snapOut{}
	}
	return &s.outs[len(s.outs)-1]
}

func countOuts(outs []snapOut) map[snapOut]int {
	m := map[snapOut]int{}
	for _, o := range outs {
		m[o]++
	}
	return m
}

// permuted tells whether b holds the same outputs as a.
func permuted(a, b []snapOut) bool {
	if len(a) != len(b) {
		return false
	}
	m := countOuts(a)
	for _, o := range b {
		m[o]--
		if m[o] < 0 {
			return false
		}
	}
	return true
}

// randomizeOp shuffles outputs; the model follows the observation if it is a permutation.
func (h *history) randomizeOp(s *snap) *editOp {
	k := h.k
	from := 0
	o := &editOp{name: "RandomizeOutputs", want: accept}
	o.run = func(tx *txb.TxBuilder) error { tx.RandomizeOutputs(); return nil }
	if k.Intn(2) == 0 {
		i := k.Intn(len(s.outs) + 1)
		from = i + 1
		o.name, o.args = "RandomizeOutputsAfter", fmt.Sprintf("%d", i)
		o.run = func(tx *txb.TxBuilder) error { tx.RandomizeOutputsAfter(i); return nil }
	}
	o.apply = func(m, post *snap) string {
		if from >= len(m.outs) {
			return ""
		}
		if len(m.outs) != len(post.outs) || !permuted(m.outs[from:], post.outs[from:]) {
			return "the outputs are not a permutation of what they were"
		}
		copy(m.outs[from:], post.outs[from:])
		return ""
	}
	return o
}

// startBuilder makes the builder a history starts from.
func (k *K) startBuilder(h *history) *txb.TxBuilder {
	tx := txb.NewTxBuilder(k.rate(), k.dustRate())
	if tx.FeeRate > 100 {
		tx.FeeRate = 1
	}
	return tx
}

// existingBuilder makes a builder from an existing transaction for a history to start from.
func (k *K) existingBuilder(h *history) *txb.TxBuilder {
	blank := k.startBuilder(h)
	tx := k.genMsgTx()
	if len(tx.TxIn) > 6 {
		tx.TxIn = tx.TxIn[:6]
	}
	if len(tx.TxOut) > 6 {
		tx.TxOut = tx.TxOut[:6]
	}
	for _, out := range tx.TxOut {
		out.Value = k.value()
	}
	p := &provider{tx: tx}
	var utxos []bitcoin.UTXO
	for _, in := range tx.TxIn {
		u := k.utxo(k.lockOutput(), 1+k.value())
		u.Hash, u.Index = in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index
		utxos = append(utxos, u)
		p.spent = append(p.spent, &wire.TxOut{Value: u.Value, LockingScript: u.LockingScript})
	}
	var b *txb.TxBuilder
	form := k.Intn(3)
	k.Call("build from an existing transaction", func() {
		switch form {
		case 0:
			b, _ = txb.NewTxBuilderFromWire(blank.FeeRate, blank.DustFeeRate, tx, nil)
		case 1:
			b, _ = txb.NewTxBuilderFromWireUTXOs(blank.FeeRate, blank.DustFeeRate, tx, utxos)
		default:
			b, _ = txb.NewTxBuilderFromTransactionWithOutputs(blank.FeeRate, blank.DustFeeRate, p)
		}
	})
	if b == nil {
		k.Event("no builder from an existing transaction")
		return blank
	}
	k.Tracef("builder from an existing transaction, form %d", form)
	k.Decide("builder from an existing transaction")
	return b
}

func (k *K) do(o *editOp, tx *txb.TxBuilder) error {
	var err error
	k.Tracef("%s", o)
	k.Call(o.name, func() { err = o.run(tx) })
	if err != nil {
		k.Tracef("  refused: %v", err)
	}
	return err
}

// bulk puts several hundred inputs and outputs on builders, some of them spending the outpoints the
// history is about.
func (h *history) bulk(txs ...*txb.TxBuilder) {
	k := h.k
	n := 200 + k.Intn(500)
	utxos := make([]bitcoin.UTXO, n)
	for i := range utxos {
		utxos[i] = k.utxo(k.lockP2PKH(), k.value())
	}
	if h.points != nil {
		for i := range h.points {
			if k.Intn(2) == 0 {
				u := utxos[k.Intn(n)]
				h.points[i] = wire.OutPoint{Hash: u.Hash, Index: u.Index}
			}
		}
		last := utxos[n-1]
		h.points = append(h.points, wire.OutPoint{Hash: last.Hash, Index: last.Index})
	}
	outs := k.Intn(400)
	if h.maxOuts > 0 {
		h.maxOuts += outs
	}
	l := k.lockP2PKH()
	for _, tx := range txs {
		for _, u := range utxos {
			if err := tx.AddInputUTXO(u); err != nil {
				k.Fail("setup", "adding a fresh input was refused: %s", err)
			}
		}
		for i := 0; i < outs; i++ {
			if err := tx.AddOutput(l.script, 1000000+uint64(i), false, false); err != nil {
				k.Fail("setup", "adding an output of sufficient value was refused: %s", err)
			}
		}
	}
	k.Tracef("builder with %d inputs and %d outputs", n, outs)
	k.Event("builder of several hundred inputs")
}

func editCase(k *K) {
	h := k.newHistory(k.Intn(3) == 0)
	tx := k.startBuilder(h)
	if k.Intn(8) == 0 {
		tx = k.existingBuilder(h)
	}
	if k.Intn(500) == 0 {
		h.bulk(tx)
	}
	m := k.Snap(tx)
	steps := 5 + k.Intn(30)
	last := ""
	for i := 0; i < steps; i++ {
		var o *editOp
		if k.Intn(12) == 0 {
			o = h.randomizeOp(m)
		} else {
			o = h.edit(m)
		}
		want, _ := o.want(m)
		err := k.do(o, tx)
		post := k.Snap(tx)
		if err != nil {
			k.Check("refused for a reason", want != mustAccept, "%s was refused: %v", o, err)
		} else {
			if want == mustRefuse {
				// what is refused is judged elsewhere, unless it makes a value wrap around
				if o.name == "SubtractValueFromOutput" {
					k.Fail("wrapped", "%s was accepted", o)
				}
				k.Skip("accepted what should be refused")
				return
			}
			complaint := o.apply(m, post)
			k.Check("acts as documented", complaint == "", "%s: %s", o, complaint)
		}
		d := m.diff(post)
		k.Check("everything else as it was", d == "", "after %s: expected -> observed: %s", o, d)
		k.Distinct("%s after %s ins%d outs%d %v", o.name, last, len(m.ins), len(m.outs), err == nil)
		last = o.name
		if k.Intn(8) == 0 && len(tx.ChangeScript) > 0 && m.remainder() < 0 && len(m.outs) < h.maxOuts {
			// change added for the fee
			k.Call("AdjustFee", func() { tx.AdjustFee(-100000 - k.Int63n(100000)) })
			m = k.Snap(tx)
			k.Tracef("change added for the fee: %d outputs", len(m.outs))
			k.Event("change added for the fee")
		}
		if k.Intn(6) == 0 && len(tx.Outputs) > 0 {
			// identifiers are set by the caller
			j := k.Intn(len(tx.Outputs))
			tx.Outputs[j].KeyID = k.ident()
			m.outs[j].keyID = tx.Outputs[j].KeyID
		}
		if k.Intn(10) == 0 && len(tx.MsgTx.TxIn) > 0 {
			j := k.Intn(len(tx.MsgTx.TxIn))
			tx.MsgTx.TxIn[j].Sequence = k.Uint32()
			m.ins[j].seq = tx.MsgTx.TxIn[j].Sequence
			tx.MsgTx.TxIn[j].UnlockingScript = k.bytes(1 + k.Intn(20))
			m.ins[j].unlock = string(tx.MsgTx.TxIn[j].UnlockingScript)
		}
	}
	k.Sample(map[string]interface{}{"history": append([]string(nil), k.trace...), "end": m.brief()})
}

func duplicateCase(k *K) {
	h := k.newHistory(true)
	tx := k.startBuilder(h)
	if k.Intn(60) == 0 {
		h.bulk(tx)
	}
	unique := func(what string) *snap {
		s := k.Snap(tx)
		seen := map[string]int{}
		for i := range s.ins {
			id := fmt.Sprintf("%x:%d", s.ins[i].hash[:], s.ins[i].index)
			if j, ok := seen[id]; ok {
				k.Fail("spent twice", "after %s inputs %d and %d spend the same output", what, j, i)
			}
			seen[id] = i
		}
		k.Decide("no output spent twice")
		if len(s.ins) > 256 {
			k.Decide("no output spent twice among hundreds")
		}
		return s
	}
	s := unique("start")
	steps := 6 + k.Intn(30)
	for i := 0; i < steps; i++ {
		switch k.Intn(9) {
		case 0:
			// funding from the same small set
			var utxos []bitcoin.UTXO
			for n := k.Intn(5); n > 0; n-- {
				p := h.outpoint()
				utxos = append(utxos, h.utxo(p))
			}
			if len(tx.Outputs) == 0 || k.Intn(3) == 0 {
				l := k.lockP2PKH()
				tx.AddOutput(l.script, 1000+k.value(), k.Intn(3) == 0, false)
			}
			tx.ChangeScript = k.lockP2PKH().script
			tx.SendMax = k.Intn(3) == 0
			name := "AddFunding"
			var err error
			if k.Intn(2) == 0 {
				k.Call(name, func() { err = tx.AddFunding(utxos) })
			} else {
				name = "AddFundingBreakChange"
				addrs, _ := k.changeAddresses(1+k.Intn(4), map[string]bool{})
				k.Call(name, func() { err = tx.AddFundingBreakChange(utxos, 1000, addrs) })
			}
			k.Tracef("%s with %d offered, max %v -> %v", name, len(utxos), tx.SendMax, err)
			k.Check("funding skips spent outputs", errors.Cause(err) != txb.ErrDuplicateInput, "funding failed with: %v", err)
			pre := s
			s = unique(name)
			if tx.SendMax && err == nil {
				for _, u := range utxos {
					k.Check("funding takes unspent outputs", s.spends(wire.OutPoint{Hash: u.Hash, Index: u.Index}, -1), "an offered output was left out")
				}
			}
			k.Distinct("%s took %d of %d from %d %v", name, len(s.ins)-len(pre.ins), len(utxos), len(pre.ins), err == nil)
			continue
		case 1:
			if k.Intn(2) == 0 {
				c := tx.Copy()
				tx = &c
				k.Tracef("continue with a copy")
				s = unique("Copy")
			}
			continue
		}
		o := h.inputEdit(s)
		want, cause := o.want(s)
		err := k.do(o, tx)
		s2 := unique(o.String())
		if want == mustRefuse {
			k.Check("refused", err != nil, "%s was accepted", o)
			if cause != nil {
				k.Check("duplicate reported", errors.Cause(err) == cause, "%s: reported as %v", o, err)
			}
		} else {
			k.Check("unspent outputs accepted", err == nil, "%s was refused: %v", o, err)
		}
		dups := 0
		for _, p := range h.points {
			if s.spends(p, -1) {
				dups++
			}
		}
		k.Distinct("%s ins%d taken%d/%d want%d", o.name, len(s.ins), dups, len(h.points), want)
		s = s2
	}
	k.Sample(map[string]interface{}{"history": append([]string(nil), k.trace...)})
}

// refusableOp makes fee adjustments, signing and queries that may be refused.
func (h *history) refusableOp(s *snap) *editOp {
	k := h.k
	switch k.Intn(6) {
	case 0, 1:
		amount := int64(k.Intn(4000)) - 1500
		if r := s.remainder(); r >= 0 {
			o, i := changeCost([]byte(s.outs[r].script), s.feeRate)
			v := int64(s.outs[r].value)
			switch k.Intn(4) {
			case 0:
				amount = v + int64(k.Intn(5)) - 2
			case 1:
				amount = v - int64(o) - int64(i) + int64(k.Intn(5)) - 2
			case 2:
				amount = v + k.Int63n(100000)
			}
		} else if k.Intn(3) == 0 {
			amount = -k.Int63n(100000)
		}
		return &editOp{name: "AdjustFee", args: fmt.Sprintf("%d", amount),
			run: func(tx *txb.TxBuilder) error { _, err := tx.AdjustFee(amount); return err }}
	case 2:
		return &editOp{name: "CalculateFee", run: func(tx *txb.TxBuilder) error { return tx.CalculateFee() }}
	case 3:
		return &editOp{name: "ZeroizeFee", run: func(tx *txb.TxBuilder) error { return tx.ZeroizeFee() }}
	case 4:
		i := h.position(len(s.ins))
		ki := k.key()
		past := i >= len(s.ins)
		if !past && k.Intn(2) == 0 {
			if l := lockOfScript([]byte(s.ins[i].lock)); len(l.keys) > 0 {
				ki = l.keys[0]
			}
		}
		return &editOp{name: "SignP2PKHInput", args: fmt.Sprintf("%d, key %d", i, ki.n),
			run: func(tx *txb.TxBuilder) error { return tx.SignP2PKHInput(i, ki.key, &txb.SigHashCache{}) },
			want: func(*snap) (int, error) {
				if past {
					return mustRefuse, nil
				}
				return mayRefuse, nil
			}}
	default:
		if k.Intn(2) == 0 {
			i := h.position(len(s.ins))
			return &editOp{name: "InputAddress", args: fmt.Sprintf("%d", i),
				run: func(tx *txb.TxBuilder) error { _, err := tx.InputAddress(i); return err },
				want: func(*snap) (int, error) {
					if i >= len(s.ins) {
						return mustRefuse, nil
					}
					return mayRefuse, nil
				}}
		}
		i := h.position(len(s.outs))
		return &editOp{name: "OutputAddress", args: fmt.Sprintf("%d", i),
			run: func(tx *txb.TxBuilder) error { _, err := tx.OutputAddress(i); return err },
			want: func(*snap) (int, error) {
				if i >= len(s.outs) {
					return mustRefuse, nil
				}
				return mayRefuse, nil
			}}
	}
}

func refusalCase(k *K) {
	h := k.newHistory(k.Intn(2) == 0)
	tx := k.startBuilder(h)
	// the same builder without the calls that are refused
	spared := txb.NewTxBuilder(tx.FeeRate, tx.DustFeeRate)
	if k.Intn(500) == 0 {
		h.bulk(tx, spared)
	}
	s := k.Snap(tx)
	steps := 8 + k.Intn(30)
	last := ""
	for i := 0; i < steps; i++ {
		if k.Intn(20) == 0 {
			tx.ChangeScript = nil
			if k.Intn(2) == 0 {
				tx.ChangeScript = k.lockSpendable().script
			}
			spared.ChangeScript = append(bitcoin.Script(nil), tx.ChangeScript...)
			if k.Intn(2) == 0 && s.remainder() < 0 {
				// change added for the fee
				amount := -100000 - k.Int63n(100000)
				k.Call("AdjustFee", func() { tx.AdjustFee(amount) })
				k.Call("AdjustFee", func() { spared.AdjustFee(amount) })
			}
			s = k.Snap(tx)
		}
		var o *editOp
		if k.Intn(3) == 0 {
			o = h.refusableOp(s)
		} else {
			o = h.edit(s)
		}
		want, must := mayRefuse, false
		if o.want != nil {
			want, _ = o.want(s)
			must = want == mustRefuse
		}
		err := k.do(o, tx)
		post := k.Snap(tx)
		if must {
			k.Check("refused", err != nil, "%s was accepted with %d inputs and %d outputs", o, len(s.ins), len(s.outs))
		}
		if err != nil {
			d := s.diff(post)
			k.Check("unchanged by "+o.name, d == "", "%s was refused (%v) but changed %s", o, err, d)
			k.Distinct("%s ins%d outs%d rem%v must%v %v", o.name, len(s.ins), len(s.outs), s.remainder() >= 0, must, errors.Cause(err))
			last = o.String()
			if k.Intn(8) == 0 {
				break
			}
		} else {
			o.run(spared)
		}
		s = post
	}
	if last != "" && s.diff(k.Snap(spared)) == "" {
		// nothing that is refused shows in what follows
		for n := 1 + k.Intn(4); n > 0; n-- {
			var o *editOp
			switch {
			case k.Intn(2) == 0 && s.remainder() >= 0:
				o = h.removalOp(s)
			case k.Intn(2) == 0:
				o = h.refusableOp(s)
			default:
				o = h.edit(s)
			}
			e1 := k.do(o, tx)
			e2 := o.run(spared)
			k.Check("same answer after a refusal", answer(e1) == answer(e2), "%s after the refused %s: %v, but %v without the refused calls", o, last, e1, e2)
			s = k.Snap(tx)
			d := k.Snap(spared).diff(s)
			k.Check("same behaviour after a refusal", d == "", "%s after the refused %s: without the refused calls -> with them: %s", o, last, d)
		}
	}
	k.Sample(map[string]interface{}{"history": append([]string(nil), k.trace...)})
}

func init() {
	register("C12", "Histories of 5-34 calls drawn from the seed over all edits of inputs and outputs at every position and sometimes past the end, with few scripts so that they repeat, identifiers, sequences and signatures set in between, an eighth of them on builders made from an existing transaction; after each call the whole builder is compared with a model. Distinct counts combinations of call, previous call, numbers of inputs and outputs and outcome.", func(c *C) {
		c.Require("everything else as it was", 10000)
		c.Require("builder from an existing transaction", 5000)
		c.Cases("edits", c.Pick(150000, 1500000), editCase)
	})
	register("C13", "Histories of 6-35 calls drawn from the seed over 3-7 outpoints that agree in hash, in index or in all but one bit of the hash: adding, inserting, updating, removing, funding, copying; after each call all outpoints are compared. Distinct counts combinations of call, number of inputs, how many of the outpoints are taken and expected outcome.", func(c *C) {
		c.Require("no output spent twice", 10000)
		c.Require("duplicate reported", 2000)
		c.Require("unspent outputs accepted", 2000)
		c.Require("funding takes unspent outputs", 500)
		c.Require("no output spent twice among hundreds", 500)
		c.CasesSerial("duplicates", c.Pick(12000, 120000), duplicateCase)
	})
	register("C14", "Histories of 8-37 calls drawn from the seed over all edits, fee adjustments, signing of single inputs and address queries with arguments around every limit; whenever a call is refused the whole builder is compared with its state before the call. Distinct counts combinations of refused call, numbers of inputs and outputs, remainder and cause.", func(c *C) {
		c.Require("refused", 2000)
		c.Require("same behaviour after a refusal", 10000)
		for _, n := range []string{"AddInputUTXO", "AddInput", "InsertInput", "UpdateInputUTXO", "RemoveInput", "AddOutput", "InsertOutput",
			"AddPaymentOutput", "AddMaxOutput", "SetChangeAddress", "RemoveOutput", "AddValueToOutput", "SubtractValueFromOutput",
			"SetOutputToDust", "UpdateOutput", "AdjustFee", "CalculateFee", "SignP2PKHInput"} {
			c.Require("unchanged by "+n, 20)
		}
		c.Cases("refusals", c.Pick(100000, 1000000), refusalCase)
	})
}
