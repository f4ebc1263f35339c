package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"
)

// block is a group of lines, each with a label and a value.
type block struct {
	labels []string
	values []string
}

func (b *block) get(label string) (string, bool) {
	for i, l := range b.labels {
		if l == label {
			return b.values[i], true
		}
	}
	return "", false
}

func splitLine(line string) (label, value string) {
	line = strings.TrimSpace(line)
	if i := strings.Index(line, ":"); i >= 0 {
		return strings.TrimSpace(line[:i]), strings.TrimSpace(line[i+1:])
	}
	return line, ""
}

// document is a text form taken apart.
type document struct {
	head, tail block
	ins, outs  []*block
}

var sectionLine = regexp.MustCompile(`^  (Inputs|Outputs)( \d+)?:$`)

// parseText takes a text form apart by its sections, blank lines and labels.
func parseText(text, firstInput, firstOutput string) *document {
	d := &document{}
	section := ""
	var cur *block
	for _, line := range strings.Split(text, "\n") {
		if m := sectionLine.FindStringSubmatch(line); m != nil {
			section = m[1]
			cur = nil
			if m[2] != "" {
				d.head.labels = append(d.head.labels, m[1])
				d.head.values = append(d.head.values, strings.TrimSpace(m[2]))
			}
			continue
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		label, value := splitLine(line)
		switch {
		case section == "":
			d.head.labels, d.head.values = append(d.head.labels, label), append(d.head.values, value)
			continue
		case !strings.HasPrefix(line, "    "):
			d.tail.labels, d.tail.values = append(d.tail.labels, label), append(d.tail.values, value)
			continue
		case section == "Inputs" && label == firstInput:
			cur = &block{}
			d.ins = append(d.ins, cur)
		case section == "Outputs" && label == firstOutput:
			cur = &block{}
			d.outs = append(d.outs, cur)
		}
		if cur != nil {
			cur.labels, cur.values = append(cur.labels, label), append(cur.values, value)
		}
	}
	return d
}

// unrendered marks a script that the script package cannot put in words.
const unrendered = "\x00"

func scriptText(script string) (text string) {
	defer func() {
		if recover() != nil {
			text = unrendered
		}
	}()
	return bitcoin.Script(script).String()
}

// signedLike is an unlocking script of pushes, from one short signature to more than any script has.
func (k *K) signedLike() (script []byte) {
	for n := []int{1, 1, 2, 2, 4, 6, 30}[k.Intn(7)]; n > 0; n-- {
		switch k.Intn(12) {
		case 0:
			script = append(script, 0)
		case 1:
			script = append(script, 0x4c, 0x90)
			script = append(script, k.bytes(0x90)...)
		case 2:
			script = append(script, 0x4d, 0x10, 0x02)
			script = append(script, k.bytes(0x210)...)
		case 3, 4, 5:
			script = append(append(script, 33), k.bytes(33)...)
		default:
			script = append(append(script, 0x47), k.bytes(0x47)...)
		}
	}
	return script
}

func (k *K) textState() (*state, bool) {
	st := k.genState(stateOpts{many: k.Intn(3) == 0, remainders: 2, unlockData: true})
	tx := st.tx
	odd := false
	if k.Intn(4) == 0 {
		k.addInput(st, k.lockUnknown(), k.value())
	}
	if k.Intn(3) == 0 && len(tx.MsgTx.TxOut) > 0 {
		v := []uint64{2100000000000000, 2099999999999999, 123456789012345, 16777217, 100000001, 99999999, 1, 0, k.Uint64() >> 13}[k.Intn(9)]
		tx.MsgTx.TxOut[k.Intn(len(tx.MsgTx.TxOut))].Value = v
	}
	if k.Intn(5) == 0 {
		// nothing known about this input, signed or not
		tx.AddInput(wire.OutPoint{Hash: k.hash(), Index: uint32(k.Intn(9))}, nil, 0)
		odd = true
		switch k.Intn(3) {
		case 0:
			tx.MsgTx.TxIn[len(tx.MsgTx.TxIn)-1].UnlockingScript = append([]byte{0x48}, k.bytes(0x48)...)
		case 1:
			tx.MsgTx.TxIn[len(tx.MsgTx.TxIn)-1].UnlockingScript = append([]byte{0, 0x6a, 4}, k.bytes(4)...)
		}
		st.locks = append(st.locks, lock{})
	}
	if k.Intn(6) == 0 {
		// unlocking data that leaves something out
		size, value := uint64(0), k.value()+1
		if k.Intn(2) == 0 {
			size, value = 100, 0
		}
		k.addDataInput(st, size, value)
	}
	if k.Intn(3) == 0 && len(tx.Inputs) > 0 {
		// signed or partly so, with scripts of any length
		all := k.Intn(3) == 0
		at := k.Intn(len(tx.Inputs))
		for i := range tx.Inputs {
			if len(tx.Inputs[i].LockingScript) > 0 && (all || i == at) {
				tx.MsgTx.TxIn[i].UnlockingScript = k.signedLike()
			}
		}
	}
	if k.Intn(6) == 0 && len(tx.MsgTx.TxIn) > 0 {
		tx.MsgTx.TxIn[k.Intn(len(tx.MsgTx.TxIn))].Sequence = uint32(k.Intn(300))
	}
	// blanks around an identifier cannot be told from the layout of the text
	for _, in := range st.tx.Inputs {
		in.KeyID = strings.TrimSpace(in.KeyID)
	}
	for _, o := range st.tx.Outputs {
		o.KeyID = strings.TrimSpace(o.KeyID)
	}
	return st, odd
}

func builderTextCase(k *K) {
	st, _ := k.textState()
	tx := st.tx
	s := k.traceState("builder", tx)
	net := []bitcoin.Network{bitcoin.MainNet, bitcoin.TestNet}[k.Intn(2)]
	var text string
	k.Call("String", func() { text = tx.String(net) })
	k.Tracef("%s", text)
	d := parseText(text, "Outpoint", "Value")
	is := func(what string, b *block, label, want string) {
		got, ok := b.get(label)
		if want == unrendered {
			k.Check(what, ok, "%s is not given", what)
			k.Skip("script that the script package cannot render")
			return
		}
		k.Check(what, ok && got == strings.TrimSpace(want), "%s is given as %q, should be %q", what, got, want)
	}
	id := bitcoin.Hash32{}
	copy(id[:], dsha(encodeTx(tx.MsgTx)))
	head, _ := d.head.get("TxId")
	m := regexp.MustCompile(`^(\w+) \((\d+) bytes\) \((\d+) estimated / (\d+) fee\)$`).FindStringSubmatch(head)
	k.Check("head line", m != nil, "head line is %q", head)
	k.Check("identifier", m[1] == id.String(), "identifier is given as %s, should be %s", m[1], id)
	k.Check("size", m[2] == fmt.Sprint(len(encodeTx(tx.MsgTx))), "size is given as %s, should be %d", m[2], len(encodeTx(tx.MsgTx)))
	k.Check("estimated size", m[3] == fmt.Sprint(s.estSize()), "estimated size is given as %s, should be %d", m[3], s.estSize())
	fee := s.fee()
	if fee < 0 {
		fee = 0
	}
	k.Check("fee", m[4] == fmt.Sprint(fee), "fee is given as %s, should be %d", m[4], fee)
	is("version", &d.head, "Version", fmt.Sprint(s.version))
	is("lock time", &d.tail, "LockTime", fmt.Sprint(s.lockTime))
	k.Check("inputs listed", len(d.ins) == len(s.ins), "%d inputs are listed, should be %d", len(d.ins), len(s.ins))
	k.Check("outputs listed", len(d.outs) == len(s.outs), "%d outputs are listed, should be %d", len(d.outs), len(s.outs))
	address := func(b *block, script string) {
		ra, err := bitcoin.RawAddressFromLockingScript(bitcoin.Script(script))
		if err == nil {
			is("address", b, "Address", bitcoin.NewAddressFromRawAddress(ra, net).String())
		} else {
			_, ok := b.get("Address")
			k.Check("no address", !ok, "an address is given for a script without one")
		}
	}
	keyID := func(b *block, id string) {
		got, ok := b.get("KeyID")
		k.Check("key identifier", ok == (id != "") && got == id, "key identifier is given as %q, should be %q", got, id)
	}
	for i, in := range s.ins {
		b := d.ins[i]
		is("outpoint", b, "Outpoint", fmt.Sprintf("%d - %s", in.index, in.hash.String()))
		is("unlocking script", b, "UnlockingScript", scriptText(in.unlock))
		is("sequence", b, "Sequence", fmt.Sprintf("%x", in.seq))
		is("locking script", b, "LockingScript", scriptText(in.lock))
		is("input value", b, "Value", fmt.Sprint(in.value))
		address(b, in.lock)
		keyID(b, in.keyID)
	}
	for i, o := range s.outs {
		b := d.outs[i]
		is("output value", b, "Value", fmt.Sprintf("%d.%08d", o.value/100000000, o.value%100000000))
		is("output script", b, "LockingScript", scriptText(o.script))
		address(b, o.script)
		keyID(b, o.keyID)
		_, rem := b.get("IsRemainder")
		_, dust := b.get("IsDust")
		k.Check("markings", rem == o.remainder && dust == o.dust, "output %d is given as remainder %v dust %v, should be %v %v", i, rem, dust, o.remainder, o.dust)
	}
	k.Distinct("builder ins%d outs%d rem%d neg%v kinds %s", len(s.ins), len(s.outs), s.remainders(), s.fee() < 0, s.kinds())
}

func txTextCase(k *K) {
	st, _ := k.textState()
	tx := st.tx
	s := k.traceState("transaction", tx)
	var from expanded_tx.TransactionWithOutputs = tx
	form := k.Intn(3)
	switch form {
	case 1:
		e := &expanded_tx.ExpandedTx{Tx: tx.MsgTx}
		ok := true
		for i := range tx.Inputs {
			if len(tx.Inputs[i].LockingScript) == 0 {
				ok = false
			}
			e.SpentOutputs = append(e.SpentOutputs, &expanded_tx.Output{Value: tx.Inputs[i].Value, LockingScript: tx.Inputs[i].LockingScript})
		}
		if ok {
			from = e
		}
	case 2:
		p := &provider{tx: tx.MsgTx}
		for i := range tx.Inputs {
			if len(tx.Inputs[i].LockingScript) == 0 {
				p.spent = append(p.spent, nil)
			} else {
				p.spent = append(p.spent, &wire.TxOut{Value: tx.Inputs[i].Value, LockingScript: tx.Inputs[i].LockingScript})
			}
		}
		from = p
	}
	var text string
	k.Call("TxString", func() { text = txb.TxString(from) })
	k.Tracef("%s", text)
	d := parseText(text, "Outpoint", "Locking script")
	is := func(what string, b *block, label, want string) {
		got, ok := b.get(label)
		if want == unrendered {
			k.Check(what, ok, "%s is not given", what)
			k.Skip("script that the script package cannot render")
			return
		}
		k.Check(what, ok && got == strings.TrimSpace(want), "%s is given as %q, should be %q", what, got, want)
	}
	not := func(what string, b *block, label string) {
		got, ok := b.get(label)
		k.Check(what, !ok, "%s is given as %q although unknown", what, got)
	}
	id := bitcoin.Hash32{}
	copy(id[:], dsha(encodeTx(tx.MsgTx)))
	is("identifier", &d.head, "TxID", id.String())
	is("input count", &d.head, "Inputs", fmt.Sprint(len(s.ins)))
	is("output count", &d.head, "Outputs", fmt.Sprint(len(s.outs)))
	k.Check("inputs listed", len(d.ins) == len(s.ins), "%d inputs are listed, should be %d", len(d.ins), len(s.ins))
	k.Check("outputs listed", len(d.outs) == len(s.outs), "%d outputs are listed, should be %d", len(d.outs), len(s.outs))
	sizeKnown, valueKnown, agree := true, true, true
	size := 8 + varintLen(uint64(len(s.ins))) + varintLen(uint64(len(s.outs)))
	value := uint64(0)
	for i, in := range s.ins {
		b := d.ins[i]
		is("outpoint", b, "Outpoint", fmt.Sprintf("%s:%d", in.hash.String(), in.index))
		is("unlocking script", b, "Unlocking script", scriptText(in.unlock))
		is("sequence", b, "Sequence", fmt.Sprintf("0x%08x", in.seq))
		data, isData := dataScripts.Load(in.unlock)
		switch {
		case in.lock != "":
			is("locking script", b, "Locking script", scriptText(in.lock))
			is("input value", b, "Value", fmt.Sprint(in.value))
			value += in.value
			if c := classify([]byte(in.lock)); c.unlock >= 0 {
				is("unlocking size", b, "Estimated unlocking script size", fmt.Sprint(c.unlock))
				size += inSizeForUnlock(c.unlock)
			} else {
				not("unlocking size", b, "Estimated unlocking script size")
				sizeKnown = false
			}
		case isData:
			sv := data.([2]uint64)
			if sv[0] > 0 {
				is("unlocking size", b, "Size", fmt.Sprint(sv[0]))
				size += inSizeForUnlock(int(sv[0]))
			} else {
				not("unlocking size", b, "Size")
				sizeKnown = false
			}
			if sv[1] > 0 {
				is("input value", b, "Value", fmt.Sprint(sv[1]))
				value += sv[1]
			} else {
				not("input value", b, "Value")
				valueKnown = false
			}
		default:
			not("input value", b, "Value")
			valueKnown = false
			if in.unlock != "" && in.unlock[0] == 0x48 {
				// signed: its size is what it is
				size += inSizeForUnlock(len(in.unlock))
				agree = false
			} else {
				sizeKnown = false
			}
		}
	}
	for i, o := range s.outs {
		b := d.outs[i]
		is("output script", b, "Locking script", scriptText(o.script))
		is("output value", b, "Value", fmt.Sprint(o.value))
		size += outSize([]byte(o.script))
	}
	is("lock time", &d.tail, "Locktime", fmt.Sprint(s.lockTime))
	is("size", &d.tail, "Raw size", fmt.Sprintf("%d bytes", len(encodeTx(tx.MsgTx))))
	if sizeKnown {
		is("estimated size", &d.tail, "Estimated tx size", fmt.Sprintf("%d bytes", size))
		if agree {
			k.Check("estimate agreeing with the builder", size == tx.EstimatedSize(), "estimated size %d, the builder's is %d", size, tx.EstimatedSize())
		}
	} else {
		not("unknown size left out", &d.tail, "Estimated tx size")
	}
	outs := s.outValue()
	switch {
	case !valueKnown:
		not("unknown fee left out", &d.tail, "Fee")
		not("unknown fee left out", &d.tail, "Negative fee")
		not("unknown rate left out", &d.tail, "Fee rate")
	case value >= outs:
		is("fee", &d.tail, "Fee", fmt.Sprintf("%d (inputs %d, outputs %d)", value-outs, value, outs))
		not("no negative fee", &d.tail, "Negative fee")
		if !sizeKnown {
			not("unknown rate left out", &d.tail, "Fee rate")
			break
		}
		text, _ := d.tail.get("Fee rate")
		got, err := strconv.ParseFloat(strings.TrimSuffix(text, " sat/byte"), 64)
		want := float64(value-outs) / float64(size)
		k.Check("fee rate", err == nil && math.Abs(got-want) <= 0.00006+want*1e-6, "fee rate is given as %q, should be %.6f", text, want)
	default:
		is("negative fee", &d.tail, "Negative fee", fmt.Sprintf("-%d (inputs %d, outputs %d)", outs-value, value, outs))
		not("no positive fee", &d.tail, "Fee")
	}
	k.Distinct("tx form%d ins%d outs%d size%v value%v neg%v kinds %s", form, len(s.ins), len(s.outs), sizeKnown, valueKnown, value < outs, s.kinds())
	k.Sample(map[string]interface{}{"transaction": s.brief(), "tail": fmt.Sprint(d.tail.labels, d.tail.values)})
}

func init() {
	register("C26", "Builders and transactions with known, unknown, unsupported and data-described inputs, any markings, counts around 252 and values up to the coin supply, drawn from the seed, are rendered in both text forms; the text is taken apart by its labels and every figure compared, and figures that cannot be known have to be absent. Distinct counts combinations of form, counts, markings, kinds of inputs and what is known.", func(c *C) {
		c.Require("output value", 20000)
		c.Require("estimated size", 10000)
		c.Require("fee rate", 1000)
		c.Require("negative fee", 500)
		c.Require("unknown fee left out", 500)
		c.Require("unknown size left out", 500)
		c.Cases("builder text", c.Pick(20000, 200000), builderTextCase)
		c.Cases("transaction text", c.Pick(20000, 200000), txTextCase)
	})
}
