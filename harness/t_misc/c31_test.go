package t_misc

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// refIDProof is the specified binary form of the proof for output i.
func refIDProof(slot uint32, index uint16, txc [32]byte, m *mNode) []byte {
	b := binary.LittleEndian.AppendUint32(nil, slot)
	b = binary.LittleEndian.AppendUint16(b, index)
	return append(append(b, txc[:]...), m.bytes()...)
}

func cloneOut(rt *rapid.T, api iotago.API, o iotago.Output) iotago.Output {
	d := reflect.New(reflect.TypeOf(o).Elem()).Interface().(iotago.Output)
	if _, err := api.Decode(kit.EncOutput(o), d); err != nil {
		kit.Harness(rt, "decode output: %v", err)
	}
	return d
}

func TestC31(t *testing.T) {
	kit.Check(t, 1000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		api := g.E.API()
		tx := g.Tx(kit.TxOpt{MaxIn: 3, MaxOut: g.Int(1, 9, "maxout")}).Transaction
		if n := g.Int(0, 127, "fill"); g.Rare(6, "full") && n > len(tx.Outputs) {
			for len(tx.Outputs) <= n {
				tx.Outputs = append(tx.Outputs, &iotago.BasicOutput{Amount: iotago.BaseToken(len(tx.Outputs) * g.Int(0, 1, "same")), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: kit.Keys()[0].Addr}}})
			}
		}
		n := len(tx.Outputs)
		txid := kit.RefTxID(tx)
		txc := kit.Blake(kit.EncEssence(tx.TransactionEssence))
		var raw [][]byte
		for _, o := range tx.Outputs {
			raw = append(raw, kit.EncOutput(o))
		}
		for _, i := range []int{n, n + g.Int(0, 300, "out"), 65535} {
			var err error
			var p *iotago.OutputIDProof
			if e := kit.Panics(func() { p, err = iotago.OutputIDProofFromTransaction(tx, uint16(i)) }); e != nil || err == nil {
				kit.Fail(rt, "a proof for output %d of %d is no error: %v (%v)", i, n, p, e)
			}
		}
		i := g.Int(0, n-1, "i")
		if g.Rare(3, "last") {
			i = n - 1
		}
		id := kit.RefOutputID(txid, uint16(i))
		p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
		kit.NoErr(rt, err, "proof")
		q, err := iotago.NewOutputIDProof(api, txc, tx.CreationSlot, tx.Outputs, uint16(i))
		kit.NoErr(rt, err, "NewOutputIDProof")
		m := refProof(crypto.BLAKE2b_256, raw, i)
		want := refIDProof(uint32(tx.CreationSlot), uint16(i), txc, m)
		enc, err := p.Bytes()
		kit.NoErr(rt, err, "bytes")
		if !bytes.Equal(enc, want) {
			kit.Fail(rt, "proof for output %d of %d:\n got  %x\n want %x", i, n, enc, want)
		}
		d, k, err := iotago.OutputIDProofFromBytes(api)(enc)
		kit.NoErr(rt, err, "decode")
		if k != len(enc) {
			kit.Fail(rt, "decoding used %d of %d bytes", k, len(enc))
		}
		j, err := api.JSONEncode(p)
		kit.NoErr(rt, err, "json")
		var ja any
		jw := map[string]any{"slot": float64(tx.CreationSlot), "outputIndex": float64(i), "transactionCommitment": "0x" + hex.EncodeToString(txc[:]), "outputCommitmentProof": m.json()}
		if json.Unmarshal(j, &ja) != nil || !reflect.DeepEqual(ja, any(jw)) {
			kit.Fail(rt, "JSON %s", j)
		}
		jd := new(iotago.OutputIDProof)
		kit.NoErr(rt, api.JSONDecode(j, jd), "json decode")
		ask := func(p *iotago.OutputIDProof, o iotago.Output) (r iotago.OutputID, err error) {
			if e := kit.Panics(func() { r, err = p.OutputID(o) }); e != nil {
				kit.Fail(rt, "OutputID panics: %v", e)
			}
			return
		}
		for _, x := range []*iotago.OutputIDProof{p, q, d, jd} {
			got, err := ask(x, cloneOut(rt, api, tx.Outputs[i]))
			kit.NoErr(rt, err, "the proof for output %d of %d", i, n)
			if got != id {
				kit.Fail(rt, "proof for output %d of %d yields %s, want %s", i, n, got.ToHex(), id.ToHex())
			}
			if e, _ := x.Bytes(); !bytes.Equal(e, want) {
				kit.Fail(rt, "round trip changes the proof")
			}
		}
		// other outputs: those of the transaction, altered ones, new ones
		cands := []iotago.Output{g.Output(kit.OKind(g.Int(0, 5, "ck")), "cand")}
		for k := 0; k < 5; k++ {
			cands = append(cands, tx.Outputs[g.Int(0, n-1, "co")])
		}
		for k := 0; k < 4; k++ {
			b, _ := g.MutateBytes(raw[i])
			x := reflect.New(reflect.TypeOf(tx.Outputs[i]).Elem()).Interface().(iotago.Output)
			var err error
			if kit.Panics(func() { _, err = api.Decode(b, x) }) == nil && err == nil {
				cands = append(cands, x)
			}
		}
		am := cloneOut(rt, api, tx.Outputs[i])
		f := reflect.ValueOf(am).Elem().FieldByName("Amount")
		f.SetUint(f.Uint() ^ 1<<g.Int(0, 63, "ab"))
		cands = append(cands, am, tx.Outputs[i])
		at := func(o iotago.Output) (r []int) {
			e := kit.EncOutput(o)
			for k := range raw {
				if bytes.Equal(raw[k], e) {
					r = append(r, k)
				}
			}
			return
		}
		for _, o := range cands {
			if got, err := ask(p, o); err == nil && !bytes.Equal(kit.EncOutput(o), raw[i]) {
				kit.Fail(rt, "the proof for output %d yields %s for another output %x", i, got.ToHex(), kit.EncOutput(o))
			}
		}
		// altered proofs never make an output that the transaction does not have part of it
		judge := func(what string, x *iotago.OutputIDProof, strict bool) {
			for _, o := range cands {
				got, err := ask(x, o)
				if err != nil {
					continue
				}
				pos := at(o)
				own := false
				for _, k := range pos {
					own = own || kit.RefOutputID(txid, uint16(k)) == got
				}
				switch {
				case got.TransactionID() != txid:
				case len(pos) == 0:
					kit.Fail(rt, "%s: an output the transaction does not have gets the ID %s", what, got.ToHex())
				case own:
					if strict && got == id {
						kit.Fail(rt, "%s: the altered proof still yields %s", what, id.ToHex())
					}
				case kit.IsKnown("C31", "index-not-bound"):
					kit.Reproduced("index-not-bound")
				default:
					kit.Fail(rt, "%s: output %v of the transaction gets the ID %s of another", what, pos, got.ToHex())
				}
			}
		}
		for k := 0; k < 8; k++ {
			x, _, err := iotago.OutputIDProofFromBytes(api)(enc)
			kit.NoErr(rt, err, "decode")
			what := ""
			switch k {
			case 0:
				x.Slot ^= iotago.SlotIndex(1) << g.Int(0, 31, "sb")
				what = "slot"
			case 1:
				x.TransactionCommitment[g.Int(0, 31, "tb")] ^= 1 << g.Int(0, 7, "tbit")
				what = "transaction commitment"
			case 2:
				x.OutputIndex ^= 1 << g.Int(0, 15, "ib")
				what = "index"
			case 3:
				x.OutputIndex = uint16(g.Int(0, n-1, "ix"))
				if int(x.OutputIndex) == i {
					continue
				}
				what = "index"
			default:
				b := append([]byte{}, enc...)
				at := g.Int(0, len(b)-1, "flip")
				b[at] ^= 1 << g.Int(0, 7, "bit")
				var err error
				if e := kit.Panics(func() { x, _, err = iotago.OutputIDProofFromBytes(api)(b) }); e != nil {
					kit.Fail(rt, "decoding %x panics: %v", b, e)
				}
				if err != nil {
					continue
				}
				what = "bit"
				if at > 38 && b[at] < 3 { // a value hash turned into a leaf hash or back
					what = "type"
				}
			}
			judge(what, x, what != "type")
			c.Label(what)
			if k < 4 || k == 7 {
				// the same alteration of a proof that has been asked before, in place
				y, _, err := iotago.OutputIDProofFromBytes(api)(enc)
				kit.NoErr(rt, err, "decode")
				if got, err := ask(y, tx.Outputs[i]); err != nil || got != id {
					kit.Fail(rt, "the decoded proof yields %s (%v)", got.ToHex(), err)
				}
				y.Slot, y.TransactionCommitment, y.OutputIndex, y.OutputCommitmentProof = x.Slot, x.TransactionCommitment, x.OutputIndex, x.OutputCommitmentProof
				for _, o := range cands {
					got, err := ask(y, o)
					if w, werr := ask(x, o); got != w || (err == nil) != (werr == nil) {
						kit.Fail(rt, "the %s of a proof changed after it was used: it yields %s (%v), a fresh one %s (%v)", what, got.ToHex(), err, w.ToHex(), werr)
					}
				}
				c.Label("used, then altered")
			}
		}
		// restructured proofs
		for k := 0; k < 6; k++ {
			r := m.clone()
			if g.Rare(3, "of another") {
				r = refProof(crypto.BLAKE2b_256, raw, g.Int(0, n-1, "o"))
			}
			ns := r.nodes()
			y := ns[g.Int(0, len(ns)-1, "node")]
			leaf := sum(crypto.BLAKE2b_256, []byte{0}, kit.EncOutput(cands[g.Int(0, len(cands)-1, "plant")]))
			what := ""
			switch g.Int(0, 4, "alter") {
			case 0:
				if y.kind == 0 {
					y.l, y.r, what = y.r, y.l, "exchange"
				}
			case 1:
				*y, what = mNode{kind: 2, hash: leaf}, "planted"
			case 2:
				*y, what = mNode{l: y.clone(), r: &mNode{kind: 2, hash: leaf}}, "extended"
			case 3:
				*y, what = mNode{kind: byte(g.Int(1, 2, "as")), hash: y.root(crypto.BLAKE2b_256)}, "collapsed"
			case 4:
				what = "whole"
			}
			if what == "" {
				continue
			}
			x, _, err := iotago.OutputIDProofFromBytes(api)(refIDProof(uint32(tx.CreationSlot), uint16(i), txc, r))
			kit.NoErr(rt, err, "decode altered proof")
			judge(what, x, false)
			c.Label(what)
		}
		c.NonTrivial(want)
		c.Label(fmt.Sprintf("outputs<=%d", bucket(n)))
		c.Sample("output %d of %d (%T)", i, n, tx.Outputs[i])
	})
}
