package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	txb "github.com/tokenized/txbuilder"

	"github.com/pkg/errors"
)

// Builders with the same content that came about differently, keys given differently, and builders
// stored as text.

// direct makes a builder with the given content by adding everything in order.
func (k *K) direct(s *snap) *txb.TxBuilder {
	tx := txb.NewTxBuilder(0, 0) // everything is worth having for now
	for i := range s.ins {
		in := &s.ins[i]
		var err error
		k.Call("AddInputUTXO", func() {
			err = tx.AddInputUTXO(bitcoin.UTXO{Hash: in.hash, Index: in.index, Value: in.value, LockingScript: bitcoin.Script(in.lock), KeyID: in.keyID})
		})
		k.Check("accepted on another route", err == nil, "adding an input that the builder has is refused: %v", err)
	}
	for i := range s.outs {
		o := &s.outs[i]
		var err error
		k.Call("AddOutput", func() { err = tx.AddOutput(bitcoin.Script(o.script), o.value, o.remainder, false) })
		if err != nil {
			// put there by hand
			k.Event("output set by hand")
			tx.MsgTx.AddTxOut(wire.NewTxOut(o.value, bitcoin.Script(o.script)))
			tx.Outputs = append(tx.Outputs, &txb.OutputSupplement{})
		}
	}
	return k.dress(tx, s)
}

// inserted makes a builder with the given content from the middle, with things that are removed again.
func (k *K) inserted(s *snap) *txb.TxBuilder {
	tx := txb.NewTxBuilder(0, 0)
	order := k.Perm(len(s.ins))
	var there []int // which inputs are there, in order
	for _, n := range order {
		at := sort.SearchInts(there, n)
		in := &s.ins[n]
		u := bitcoin.UTXO{Hash: in.hash, Index: in.index, Value: in.value, LockingScript: bitcoin.Script(in.lock), KeyID: in.keyID}
		var err error
		switch k.Intn(3) {
		case 0:
			// something else first
			k.Call("InsertInput", func() { err = tx.InsertInput(at, k.utxo(k.lockSized(), k.value())) })
			if err == nil {
				k.Call("UpdateInputUTXO", func() { err = tx.UpdateInputUTXO(at, u) })
			}
		case 1:
			// and something that goes again
			k.Call("InsertInput", func() { err = tx.InsertInput(at, k.utxo(k.lockSized(), k.value())) })
			if err == nil {
				k.Call("InsertInput", func() { err = tx.InsertInput(at, u) })
			}
			if err == nil {
				k.Call("RemoveInput", func() { err = tx.RemoveInput(at + 1) })
			}
		default:
			k.Call("InsertInput", func() { err = tx.InsertInput(at, u) })
		}
		k.Check("accepted on another route", err == nil, "putting an input at position %d of %d is refused: %v", at, len(there), err)
		there = append(there, 0)
		copy(there[at+1:], there[at:])
		there[at] = n
	}
	there = nil
	for _, n := range k.Perm(len(s.outs)) {
		at := sort.SearchInts(there, n)
		o := &s.outs[n]
		var err error
		if k.Intn(2) == 0 && o.value > 1 {
			k.Call("InsertOutput", func() { err = tx.InsertOutput(at, k.lockP2PKH().script, 1, false, false) })
			if err == nil {
				k.Call("UpdateOutput", func() { err = tx.UpdateOutput(uint32(at), bitcoin.Script(o.script)) })
			}
			if err == nil {
				k.Call("AddValueToOutput", func() { err = tx.AddValueToOutput(uint32(at), o.value-1) })
			}
		} else {
			k.Call("InsertOutput", func() { err = tx.InsertOutput(at, bitcoin.Script(o.script), o.value, o.remainder, false) })
		}
		if err != nil {
			k.Skip("route not open")
			return k.direct(s)
		}
		there = append(there, 0)
		copy(there[at+1:], there[at:])
		there[at] = n
	}
	return k.dress(tx, s)
}

// fromWire makes a builder with the given content from the transaction and the spent outputs.
func (k *K) fromWire(s *snap, m *wire.MsgTx) *txb.TxBuilder {
	var utxos []bitcoin.UTXO
	for _, i := range k.Perm(len(s.ins)) {
		in := s.ins[i]
		utxos = append(utxos, bitcoin.UTXO{Hash: in.hash, Index: in.index, Value: in.value, LockingScript: bitcoin.Script(in.lock), KeyID: in.keyID})
	}
	c := m.Copy()
	var tx *txb.TxBuilder
	var err error
	k.Call("NewTxBuilderFromWireUTXOs", func() { tx, err = txb.NewTxBuilderFromWireUTXOs(s.feeRate, s.dustRate, &c, utxos) })
	k.Check("accepted on another route", err == nil, "a builder can't be made from a transaction and all it spends: %v", err)
	return k.dress(tx, s)
}

// dress sets what callers set themselves.
func (k *K) dress(tx *txb.TxBuilder, s *snap) *txb.TxBuilder {
	for i := range s.ins {
		tx.MsgTx.TxIn[i].Sequence = s.ins[i].seq
		tx.MsgTx.TxIn[i].UnlockingScript = nil
		if s.ins[i].unlock != "" {
			tx.MsgTx.TxIn[i].UnlockingScript = bitcoin.Script(s.ins[i].unlock)
		}
	}
	for i := range s.outs {
		tx.Outputs[i].IsRemainder, tx.Outputs[i].IsDust, tx.Outputs[i].KeyID = s.outs[i].remainder, s.outs[i].dust, s.outs[i].keyID
	}
	tx.ChangeScript, tx.ChangeKeyID = nil, s.changeKey
	if s.change != "" {
		tx.ChangeScript = bitcoin.Script(s.change)
	}
	tx.FeeRate, tx.DustFeeRate, tx.SendMax = s.feeRate, s.dustRate, s.sendMax
	tx.MsgTx.Version, tx.MsgTx.LockTime = s.version, s.lockTime
	return tx
}

// edited is a builder after random edits, none of which let the library add change.
func (k *K) edited(h *history) *txb.TxBuilder {
	tx := k.startBuilder(h)
	for steps := 2 + k.Intn(18); steps > 0; steps-- {
		s := k.Snap(tx)
		switch k.Intn(12) {
		case 0:
			tx.MsgTx.LockTime = k.Uint32()
		case 1:
			if n := len(s.ins); n > 0 {
				tx.MsgTx.TxIn[k.Intn(n)].Sequence = k.Uint32()
			}
		case 2:
			tx.ChangeScript = k.lockSpendable().script
			tx.ChangeKeyID = k.ident()
		case 3:
			if n := len(s.outs); n > 0 {
				tx.Outputs[k.Intn(n)].KeyID = k.ident()
			}
		case 4:
			k.Call("RandomizeOutputs", func() { tx.RandomizeOutputs() })
		case 5:
			if len(s.ins) > 0 {
				keys := k.withStrangers(k.neededKeys(s))
				k.Call("SignOnly", func() { tx.SignOnly(keys) })
			}
		case 6:
			queries(tx)
		default:
			k.do(h.edit(s), tx)
		}
	}
	if k.Intn(3) == 0 {
		tx.SendMax = !tx.SendMax
	}
	return tx
}

func (h *history) jointOp(s *snap) *editOp {
	k := h.k
	switch k.Intn(8) {
	case 0:
		return &editOp{name: "CalculateFee", run: func(tx *txb.TxBuilder) error { return tx.CalculateFee() }}
	case 1:
		a := k.Int63n(4000) - 2000
		return &editOp{name: "AdjustFee", args: fmt.Sprint(a), run: func(tx *txb.TxBuilder) error { _, err := tx.AdjustFee(a); return err }}
	case 2:
		return h.removalOp(s)
	case 3:
		u := h.worth(uint64(k.Intn(2000000)))
		return &editOp{name: "AddFunding", args: fmt.Sprintf("1 utxo of %d", u.Value), run: func(tx *txb.TxBuilder) error { return tx.AddFunding([]bitcoin.UTXO{u}) }}
	case 4, 5:
		if len(s.ins) == 0 {
			break
		}
		keys := k.withStrangers(k.neededKeys(s))
		return &editOp{name: "Sign", args: fmt.Sprintf("%d keys", len(keys)), run: func(tx *txb.TxBuilder) error { _, err := tx.Sign(keys); return err }}
	}
	return h.anyOp(s)
}

func cause(err error) error { return errors.Cause(err) }

// jointly makes the same calls on all builders, which must answer and end the same.
func (k *K) jointly(h *history, names []string, txs []*txb.TxBuilder, steps int) {
	last := ""
	for ; steps > 0; steps-- {
		s := k.Snap(txs[0])
		want := fmt.Sprint(queries(txs[0]))
		for i := 1; i < len(txs); i++ {
			got := fmt.Sprint(queries(txs[i]))
			k.Check("same answers to queries", got == want, "the builder made by %s answers %s, the one made by %s %s", names[0], want, names[i], got)
		}
		o := h.jointOp(s)
		k.Tracef("all: %s", o)
		var first *snap
		var e0 error
		for i := range txs {
			err := k.do(o, txs[i])
			post := k.Snap(txs[i])
			if i == 0 {
				first, e0 = post, err
				continue
			}
			k.Check("same answer", (err == nil) == (e0 == nil) && cause(err) == cause(e0) || err != nil && e0 != nil && err.Error() == e0.Error(),
				"%s: %v on the builder made by %s, %v on the one made by %s", o, e0, names[0], err, names[i])
			d := first.diff(post)
			k.Check("same outcome", d == "", "after %s the builders made by %s and by %s differ: %s", o, names[0], names[i], d)
			k.Check("same transaction", string(encodeTx(txs[0].MsgTx)) == string(encodeTx(txs[i].MsgTx)), "after %s the transactions differ", o)
		}
		if o.name == "Sign" && e0 == nil {
			k.Decide("signed the same")
		}
		k.Distinct("%s after %s ins%d outs%d %v", o.name, last, bucket(len(first.ins)), bucket(len(first.outs)), e0 == nil)
		last = o.name
	}
}

func routesCase(k *K) {
	h := k.newHistory(k.Intn(4) == 0)
	h.lockIn = k.lockSpendable
	h.exist = map[wire.OutPoint]bitcoin.UTXO{}
	tx := k.edited(h)
	s := k.traceState("content", tx)
	names := []string{"edits", "adding in order", "inserting", "reading"}
	txs := []*txb.TxBuilder{tx, k.direct(s), k.inserted(s), k.fromWire(s, tx.MsgTx)}
	for i := range txs {
		unshare(txs[i])
		d := s.diff(k.Snap(txs[i]))
		k.Check("same content", d == "", "the builders made by %s and by %s differ: %s", names[0], names[i], d)
	}
	k.jointly(h, names, txs, 2+k.Intn(6))
	k.Sample(map[string]interface{}{"calls": append([]string(nil), k.trace...)})
}

// keyOrderCase signs the same transaction with the same keys given in different ways.
func keyOrderCase(k *K) {
	sg := k.genSignable()
	tx := sg.tx
	if len(tx.Inputs) > 50 {
		tx.FeeRate = 0.5
	}
	pre := k.traceState("before signing", tx)
	keys := k.neededKeys(pre)
	missing := len(keys) > 1 && k.Intn(4) == 0
	if missing {
		keys = keys[:1+k.Intn(len(keys)-1)]
	}
	asked := map[string]bool{}
	for i := range pre.ins {
		for _, ki := range lockOfScript([]byte(pre.ins[i].lock)).keys {
			asked[string(ki.key.Number())] = true
		}
	}
	only := k.Intn(3) == 0
	type outcome struct {
		given int
		s     *snap
		err   error
		used  []string
	}
	var first *outcome
	for v := 0; v < 4; v++ {
		c := tx.Copy()
		list := append([]bitcoin.Key(nil), keys...)
		if v > 0 {
			for n := k.Intn(4); n > 0; n-- {
				list = append(list, keys[k.Intn(len(keys))])
			}
			strangers := k.Intn(4)
			if k.Intn(8) == 0 {
				strangers = 20 + k.Intn(300)
			}
			for n := strangers; n > 0; n-- {
				if st := poolKey(k.Intn(poolSize)).key; !asked[string(st.Number())] {
					list = append(list, st)
				}
			}
			if k.Intn(3) == 0 {
				list = append(list, negated(keys[k.Intn(len(keys))]))
			}
			list = shuffleKeys(k, list)
		}
		o := &outcome{given: len(list)}
		var used []bitcoin.Key
		if only {
			k.Call("SignOnly", func() { used, o.err = c.SignOnly(list) })
		} else {
			k.Call("Sign", func() { used, o.err = c.Sign(list) })
		}
		given, seen := map[string]bool{}, map[string]bool{}
		for _, g := range list {
			given[string(g.Number())] = true
		}
		for _, u := range used {
			n := string(u.Number())
			k.Check("reported once", given[n] && !seen[n], "a key is reported as used twice or without having been given, %d reported", len(used))
			seen[n] = true
			o.used = append(o.used, n)
		}
		sort.Strings(o.used)
		o.s = k.Snap(&c)
		k.Tracef("%d keys given, %d used: %v", len(list), len(used), o.err)
		if first == nil {
			first = o
			continue
		}
		k.Check("same answer for any order", (o.err == nil) == (first.err == nil) && cause(o.err) == cause(first.err), "%v for one list of keys, %v for another with the same keys", first.err, o.err)
		if o.err != nil && cause(o.err) != txb.ErrMissingPrivateKey {
			k.Skip("not signed")
			continue
		}
		d := first.s.diff(o.s)
		k.Check("same signatures for any order", d == "", "the same keys in another order, with others or repeated: %s", d)
		k.Check("same keys reported", fmt.Sprintf("%x", o.used) == fmt.Sprintf("%x", first.used), "%d keys are reported as used for one list, %d for another with the same keys", len(first.used), len(o.used))
		k.Distinct("%s ins%d keys%d given%d only%v %v", pre.kinds(), bucket(len(pre.ins)), len(keys), o.given, only, o.err == nil)
	}
	k.Sample(map[string]interface{}{"before": pre.brief(), "keys": len(keys), "trace": append([]string(nil), k.trace...)})
}

var storeIdents = []string{"", "a", "key 1", `with "quotes"`, "m/44'/0'/1", "back\\slash", "line\nbreak", "ä中\U0001f511", "<a&b>", " ", "null", "0"}

// storeCase stores a builder as JSON and goes on with what is read back.
func storeCase(k *K) {
	h := k.newHistory(false)
	h.lockIn = k.lockSpendable
	h.exist = map[wire.OutPoint]bitcoin.UTXO{}
	tx := k.edited(h)
	ident := func() string { return storeIdents[k.Intn(len(storeIdents))] }
	for i := range tx.Inputs {
		if k.Intn(2) == 0 {
			tx.Inputs[i].KeyID = ident()
		}
	}
	for i := range tx.Outputs {
		if k.Intn(2) == 0 {
			tx.Outputs[i].KeyID = ident()
		}
	}
	if k.Intn(2) == 0 {
		tx.ChangeKeyID = ident()
	}
	if len(tx.MsgTx.TxIn) == 0 && len(tx.MsgTx.TxOut) == 0 {
		k.Skip("empty")
		return
	}
	s := k.traceState("stored", tx)

	// piece by piece
	for i, in := range tx.Inputs {
		var c txb.InputSupplement
		text := k.store(in, &c)
		k.Check("input data survives", string(c.LockingScript) == s.ins[i].lock && c.Value == s.ins[i].value && c.KeyID == s.ins[i].keyID, "input %d %s is stored as %s", i, s.ins[i], text)
		// as others write it
		m := map[string]interface{}{"locking_script": fmt.Sprintf("%x", s.ins[i].lock), "value": s.ins[i].value}
		if s.ins[i].keyID != "" {
			m["key_id"] = s.ins[i].keyID
		}
		var d txb.InputSupplement
		k.store(m, &d)
		k.Check("stored form is read", string(d.LockingScript) == s.ins[i].lock && d.Value == s.ins[i].value && d.KeyID == s.ins[i].keyID, "input %d is read as value %d, script %x, identifier %q from %v", i, d.Value, []byte(d.LockingScript), d.KeyID, m)
		var back map[string]json.RawMessage
		k.store(in, &back)
		id := "" // may be left out
		if raw, ok := back["key_id"]; ok {
			json.Unmarshal(raw, &id)
		}
		k.Check("stored form is written", string(back["locking_script"]) == fmt.Sprintf("\"%x\"", s.ins[i].lock) && string(back["value"]) == fmt.Sprint(s.ins[i].value) && id == s.ins[i].keyID, "input %d is stored as %s", i, text)
	}
	for i, o := range tx.Outputs {
		var c txb.OutputSupplement
		text := k.store(o, &c)
		k.Check("output data survives", c.IsRemainder == s.outs[i].remainder && c.IsDust == s.outs[i].dust && c.KeyID == s.outs[i].keyID, "output %d %s is stored as %s", i, s.outs[i], text)
		m := map[string]interface{}{"is_remainder": s.outs[i].remainder, "is_dust": s.outs[i].dust}
		if s.outs[i].keyID != "" {
			m["key_id"] = s.outs[i].keyID
		}
		var d txb.OutputSupplement
		k.store(m, &d)
		k.Check("stored form is read", d.IsRemainder == s.outs[i].remainder && d.IsDust == s.outs[i].dust && d.KeyID == s.outs[i].keyID, "output %d is read as %v from %v", i, d, m)
	}
	if ra, ok := k.address(k.lockSpendable()); ok {
		a := txb.AddressKeyID{Address: ra, KeyID: ident()}
		var c txb.AddressKeyID
		text := k.store(a, &c)
		k.Check("address survives", c.Address.Equal(a.Address) && c.KeyID == a.KeyID, "an address with identifier %q is stored as %s", a.KeyID, text)
	}

	// as a whole, more than once
	c := &txb.TxBuilder{}
	k.store(tx, c)
	if k.Intn(3) == 0 {
		again := &txb.TxBuilder{}
		k.store(c, again)
		c = again
	}
	d := s.diff(k.Snap(c))
	k.Check("builder survives", d == "", "stored -> read back: %s", d)
	unshare(tx)
	unshare(c)
	k.jointly(h, []string{"edits", "reading what was stored"}, []*txb.TxBuilder{tx, c}, 1+k.Intn(5))
	k.Sample(map[string]interface{}{"calls": append([]string(nil), k.trace...)})
}

// store writes a value as JSON and reads it into another.
func (k *K) store(from, to interface{}) string {
	var b []byte
	var err error
	k.Call("store", func() { b, err = json.Marshal(from) })
	k.Check("can be stored", err == nil, "storing fails: %v", err)
	k.Call("read", func() { err = json.Unmarshal(b, to) })
	k.Check("can be read back", err == nil, "reading %s fails: %v", b, err)
	return string(b)
}

func init() {
	register("C37", "Contents are made by 2-20 random edits from the seed and then again by adding everything in order, by inserting in random order with things that are replaced or removed again, and by reading the transaction with its spent outputs. The same 2-7 calls of every kind are then made on all four builders. Distinct counts pairs of consecutive calls with the numbers of inputs and outputs and the answer.", func(c *C) {
		c.Require("same content", 5000)
		c.Require("same outcome", 5000)
		c.Require("same answers to queries", 5000)
		c.Require("signed the same", 300)
		c.Cases("routes", c.Pick(3000, 30000), routesCase)
	})
	register("C38", "Signable builders from the seed are signed four times from the same state with the same keys: as they are, and in other orders with repeated keys, keys nothing asks for and negated keys; a quarter with keys missing, a third without fee adjustment. Distinct counts script kinds, numbers of inputs, keys and keys given, and the answer.", func(c *C) {
		c.Require("same answer for any order", 5000)
		c.Require("same signatures for any order", 3000)
		c.Require("same keys reported", 3000)
		c.Require("reported once", 5000)
		c.Cases("orders", c.Pick(2500, 30000), keyOrderCase)
	})
	register("C39", "Contents are made by 2-20 random edits from the seed with identifiers of every kind of character, stored as JSON in pieces and as a whole, read back, and compared; then the same 1-5 calls are made on both builders. Distinct counts pairs of consecutive calls with the numbers of inputs and outputs and the answer.", func(c *C) {
		c.Require("input data survives", 3000)
		c.Require("output data survives", 3000)
		c.Require("stored form is read", 3000)
		c.Require("stored form is written", 3000)
		c.Require("builder survives", 2000)
		c.Require("address survives", 1000)
		c.Require("same outcome", 3000)
		c.Require("signed the same", 100)
		c.Cases("stored", c.Pick(4000, 40000), storeCase)
	})
}
