package t_codec

import (
	"bytes"
	"encoding/binary"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

type slotted interface {
	Slot() iotago.SlotIndex
	Index() iotago.SlotIndex
	Identifier() iotago.Identifier
	ToHex() string
}

func parts36(rt *rapid.T, name string, id slotted, raw [36]byte, slot uint32) {
	var h [32]byte
	copy(h[:], raw[:32])
	if uint32(id.Slot()) != slot || uint32(id.Index()) != slot || id.Identifier() != h || id.ToHex() != "0x"+kit.Hex(raw[:]) {
		kit.Fail(rt, "%s %x: accessors give slot %d index %d identifier %x", name, raw, id.Slot(), id.Index(), id.Identifier())
	}
	if binary.LittleEndian.Uint32(raw[32:]) != slot {
		kit.Fail(rt, "%s %x does not end with slot %d", name, raw, slot)
	}
}

// C06: block and attestation identifiers.
func TestC06_Block(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		b := g.Block()
		id, err := b.ID()
		kit.NoErr(rt, err, "Block.ID")
		if want := kit.RefBlockID(g.E.Spec, b); id != want {
			kit.Fail(rt, "Block.ID = %x, specified %x", id, want)
		}
		parts36(rt, "block ID", id, id, g.E.RefSlotOf(b.Header.IssuingTime))
		if s := b.Slot(); uint32(s) != g.E.RefSlotOf(b.Header.IssuingTime) {
			kit.Fail(rt, "Block.Slot = %d", s)
		}
		m, err := b.SigningMessage()
		kit.NoErr(rt, err, "SigningMessage")
		if !bytes.Equal(m, kit.RefBlockMsg(b)) {
			kit.Fail(rt, "Block.SigningMessage = %x, specified %x", m, kit.RefBlockMsg(b))
		}
		at := iotago.NewAttestation(g.E.API(), b)
		aid, err := at.BlockID()
		kit.NoErr(rt, err, "Attestation.BlockID")
		if aid != id || at.Slot() != id.Slot() {
			kit.Fail(rt, "attestation of block %x says block %x slot %d", id, aid, at.Slot())
		}
		// identical copies share the ID, different content never does
		enc := kit.EncBlock(b)
		cp, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(g.E.API()))(enc)
		kit.NoErr(rt, err, "BlockFromBytes")
		if cp.MustID() != id {
			kit.Fail(rt, "identical copy of block %x has ID %x", id, cp.MustID())
		}
		mut := append([]byte{}, enc...)
		i := g.Int(0, len(mut)-1, "pos")
		mut[i] ^= byte(1 << g.Int(0, 7, "bit"))
		if o, n, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(g.E.API()))(mut); err == nil && n == len(mut) {
			oid, err := o.ID()
			if err == nil && oid == id && !(i >= 1+8 && i < 1+8+8 && bytes.Equal(kit.EncBlock(o), enc)) {
				kit.Fail(rt, "block with byte %d changed (%x -> %x) keeps ID %x", i, enc, mut, id)
			}
			if err == nil && bytes.Equal(kit.EncBlock(o), mut) && oid != kit.RefBlockID(g.E.Spec, o) {
				kit.Fail(rt, "changed block: ID %x, specified %x", oid, kit.RefBlockID(g.E.Spec, o))
			}
			c.Label("mutant-decoded")
		}
		c.NonTrivial(id[:])
		c.Label("block")
		c.Sample("block %x", id)
	})
}

// C06: transaction, signed transaction and output identifiers.
func TestC06_Tx(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		st := g.Tx(kit.TxOpt{})
		tx := st.Transaction
		id, err := tx.ID()
		kit.NoErr(rt, err, "Transaction.ID")
		if want := kit.RefTxID(tx); id != want {
			kit.Fail(rt, "Transaction.ID = %x, specified %x", id, want)
		}
		parts36(rt, "transaction ID", id, id, uint32(tx.CreationSlot))
		sid, err := st.ID()
		kit.NoErr(rt, err, "SignedTransaction.ID")
		if want := kit.RefSignedTxID(st); sid != want {
			kit.Fail(rt, "SignedTransaction.ID = %x, specified %x", sid, want)
		}
		parts36(rt, "signed transaction ID", sid, sid, uint32(tx.CreationSlot))
		msg, err := tx.SigningMessage()
		kit.NoErr(rt, err, "SigningMessage")
		if w := kit.RefSigningMsg(tx); !bytes.Equal(msg, w[:]) {
			kit.Fail(rt, "Transaction.SigningMessage = %x, specified %x", msg, w)
		}
		oc, err := tx.OutputCommitment()
		kit.NoErr(rt, err, "OutputCommitment")
		if w := kit.RefOutCommit(tx); oc != iotago.Identifier(w) {
			kit.Fail(rt, "OutputCommitment = %x, specified %x", oc, w)
		}
		tc, err := tx.TransactionCommitment()
		kit.NoErr(rt, err, "TransactionCommitment")
		if w := kit.Blake(kit.EncEssence(tx.TransactionEssence)); tc != iotago.Identifier(w) {
			kit.Fail(rt, "TransactionCommitment = %x, specified %x", tc, w)
		}
		if x := iotago.TransactionIDFromTransactionCommitmentAndOutputCommitment(tx.CreationSlot, tc, oc); x != id {
			kit.Fail(rt, "transaction ID from the commitments = %x, want %x", x, id)
		}
		// outputs
		set, err := tx.OutputsSet()
		kit.NoErr(rt, err, "OutputsSet")
		if len(set) != len(tx.Outputs) {
			kit.Fail(rt, "OutputsSet has %d of %d outputs", len(set), len(tx.Outputs))
		}
		for i, o := range tx.Outputs {
			oid := kit.RefOutputID(id, uint16(i))
			got, ok := set[oid]
			if !ok || !bytes.Equal(kit.EncOutput(got), kit.EncOutput(o)) {
				kit.Fail(rt, "OutputsSet lacks output %d as %x", i, oid)
			}
			outputIDParts(rt, oid, id, uint16(i))
			chainIDs(rt, oid, o)
		}
		cset := iotago.Outputs[iotago.Output](toOuts(tx.Outputs)).ChainOutputSet(id)
		n := 0
		for i, o := range tx.Outputs {
			co, ok := o.(iotago.ChainOutput)
			if !ok {
				continue
			}
			n++
			if cset[refChain(kit.RefOutputID(id, uint16(i)), co)] != co {
				kit.Fail(rt, "ChainOutputSet misses output %d", i)
			}
		}
		if n != len(cset) {
			kit.Fail(rt, "ChainOutputSet has %d entries for %d chain outputs", len(cset), n)
		}
		// re-signing
		us := st.Unlocks
		st.Unlocks = g.Unlocks(len(us))
		id2, err := tx.ID()
		kit.NoErr(rt, err, "Transaction.ID")
		sid2, err := st.ID()
		kit.NoErr(rt, err, "SignedTransaction.ID")
		same := bytes.Equal(kit.EncUnlocks(us), kit.EncUnlocks(st.Unlocks))
		if id2 != id || (sid2 == sid) != same || sid2 != kit.RefSignedTxID(st) {
			kit.Fail(rt, "after re-signing (same unlocks: %v): transaction ID %x -> %x, signed transaction ID %x -> %x", same, id, id2, sid, sid2)
		}
		// a different decodable transaction has a different ID
		enc := kit.EncTx(tx)
		mut := append([]byte{}, enc...)
		i := g.Int(0, len(mut)-1, "pos")
		mut[i] ^= byte(1 << g.Int(0, 7, "bit"))
		var o = new(iotago.Transaction)
		var derr error
		var dn int
		kit.Panics(func() { dn, derr = g.E.API().Decode(mut, o) })
		if derr == nil && dn == len(mut) {
			oid, err := o.ID()
			if err == nil && oid == id {
				kit.Fail(rt, "transaction with byte %d changed (%x -> %x) keeps ID %x", i, enc, mut, id)
			}
			if err == nil && oid != kit.RefTxID(o) {
				kit.Fail(rt, "changed transaction: ID %x, specified %x", oid, kit.RefTxID(o))
			}
			c.Label("mutant-decoded")
		}
		c.NonTrivial(id[:], sid[:])
		c.Label("tx")
		c.Sample("tx %x (%d outputs)", id, len(tx.Outputs))
	})
}

func toOuts(os iotago.TxEssenceOutputs) (r iotago.Outputs[iotago.Output]) {
	for _, o := range os {
		r = append(r, o)
	}
	return
}

// refChain is the chain ID a chain output has when created with output ID oid.
func refChain(oid iotago.OutputID, o iotago.Output) iotago.ChainID {
	var z [32]byte
	h := kit.RefChainFromOutput(oid)
	pick := func(id [32]byte) [32]byte {
		if id == z {
			return h
		}
		return id
	}
	switch o := o.(type) {
	case *iotago.AccountOutput:
		return iotago.AccountID(pick(o.AccountID))
	case *iotago.AnchorOutput:
		return iotago.AnchorID(pick(o.AnchorID))
	case *iotago.NFTOutput:
		return iotago.NFTID(pick(o.NFTID))
	case *iotago.DelegationOutput:
		return iotago.DelegationID(pick(o.DelegationID))
	case *iotago.FoundryOutput:
		return kit.RefFoundryID(o)
	}
	return nil
}

func outputIDParts(rt *rapid.T, oid iotago.OutputID, tx iotago.TransactionID, i uint16) {
	if got := iotago.OutputIDFromTransactionIDAndIndex(tx, i); got != oid {
		kit.Fail(rt, "OutputIDFromTransactionIDAndIndex(%x,%d) = %x", tx, i, got)
	}
	slot := tx.Slot()
	if oid.Index() != i || oid.TransactionID() != tx || oid.Slot() != slot || oid.CreationSlot() != slot || oid.Identifier() != tx.Identifier() {
		kit.Fail(rt, "output ID %x: accessors give index %d tx %x slot %d/%d", oid, oid.Index(), oid.TransactionID(), oid.Slot(), oid.CreationSlot())
	}
	in := oid.UTXOInput()
	if in.TransactionID != tx || in.TransactionOutputIndex != i || in.OutputID() != oid || in.CreationSlot() != slot || in.Index() != i {
		kit.Fail(rt, "output ID %x: UTXO input %x %d", oid, in.TransactionID, in.TransactionOutputIndex)
	}
	// the same for any index
	j := rapid.Uint16().Draw(rt, "any index")
	o := kit.RefOutputID(tx, j)
	if u := (&iotago.UTXOInput{TransactionID: tx, TransactionOutputIndex: j}); u.OutputID() != o || o.Index() != j || !o.UTXOInput().Equals(u) {
		kit.Fail(rt, "the input of output %d is %x, its output ID has the index %d", j, u.OutputID(), o.Index())
	}
}

func chainIDs(rt *rapid.T, oid iotago.OutputID, o iotago.Output) {
	h := kit.RefChainFromOutput(oid)
	if iotago.AccountIDFromOutputID(oid) != iotago.AccountID(h) || iotago.AnchorIDFromOutputID(oid) != iotago.AnchorID(h) || iotago.NFTIDFromOutputID(oid) != iotago.NFTID(h) || iotago.DelegationIDFromOutputID(oid) != iotago.DelegationID(h) {
		kit.Fail(rt, "chain IDs derived from output %x differ from %x", oid, h)
	}
	if *iotago.AccountAddressFromOutputID(oid) != iotago.AccountAddress(h) || *iotago.AnchorAddressFromOutputID(oid) != iotago.AnchorAddress(h) || *iotago.NFTAddressFromOutputID(oid) != iotago.NFTAddress(h) {
		kit.Fail(rt, "chain addresses derived from output %x differ from %x", oid, h)
	}
	co, ok := o.(iotago.ChainOutput)
	if !ok {
		return
	}
	id := co.ChainID()
	_, set := kit.RefChainID(o)
	if id.Empty() == set {
		kit.Fail(rt, "ChainID %x: Empty() = %v", id, id.Empty())
	}
	want := refChain(oid, o)
	res := id
	if u, ok := id.(iotago.UTXOIDChainID); ok && id.Empty() {
		res = u.FromOutputID(oid)
	}
	if res != want || !res.Matches(want) || res.ToHex() != want.ToHex() {
		kit.Fail(rt, "chain ID of output %x = %x, specified %x", oid, res, want)
	}
	switch o := o.(type) {
	case *iotago.AccountOutput, *iotago.AnchorOutput, *iotago.NFTOutput:
		var raw []byte
		switch v := res.(type) {
		case iotago.AccountID:
			raw = kit.Cat([]byte{8}, v[:])
		case iotago.NFTID:
			raw = kit.Cat([]byte{16}, v[:])
		case iotago.AnchorID:
			raw = kit.Cat([]byte{24}, v[:])
		}
		if !res.Addressable() || !bytes.Equal(kit.EncAddr(res.ToAddress()), raw) || res.ToAddress().ChainID() != res {
			kit.Fail(rt, "chain ID %x converts to address %x", res, kit.EncAddr(res.ToAddress()))
		}
	case *iotago.FoundryOutput:
		f, err := o.FoundryID()
		kit.NoErr(rt, err, "FoundryID")
		nt, err := o.NativeTokenID()
		kit.NoErr(rt, err, "NativeTokenID")
		w := kit.RefFoundryID(o)
		if f != w || nt != iotago.NativeTokenID(w) || f.FoundrySerialNumber() != o.SerialNumber || f.Addressable() {
			kit.Fail(rt, "foundry ID %x native token %x serial %d, specified %x", f, nt, f.FoundrySerialNumber(), w)
		}
		a, err := f.AccountAddress()
		kit.NoErr(rt, err, "FoundryID.AccountAddress")
		if !bytes.Equal(kit.EncAddr(a), w[:33]) {
			kit.Fail(rt, "foundry %x account address %x", f, kit.EncAddr(a))
		}
	}
}

// C06: commitment, roots and derived identifiers of arbitrary parts.
func TestC06_Rest(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		cm := g.Commitment()
		id, err := cm.ID()
		kit.NoErr(rt, err, "Commitment.ID")
		if w := kit.RefCommitmentID(cm); id != w {
			kit.Fail(rt, "Commitment.ID = %x, specified %x", id, w)
		}
		parts36(rt, "commitment ID", id, id, uint32(cm.Slot))
		// any change to a field changes it
		d := *cm
		f := g.Int(0, 5, "field")
		switch f {
		case 0:
			d.ProtocolVersion += iotago.Version(g.Int(1, 255, "v"))
		case 1:
			d.Slot += iotago.SlotIndex(g.Int(1, 1<<31, "v"))
		case 2:
			d.PreviousCommitmentID[g.Int(0, 35, "i")] ^= byte(g.Int(1, 255, "v"))
		case 3:
			d.RootsID[g.Int(0, 31, "i")] ^= byte(g.Int(1, 255, "v"))
		case 4:
			d.CumulativeWeight += uint64(g.Int(1, 1<<62, "v"))
		case 5:
			d.ReferenceManaCost += iotago.Mana(g.Int(1, 1<<62, "v"))
		}
		if id2, err := d.ID(); err != nil || id2 == id || id2 != kit.RefCommitmentID(&d) || d.Equals(cm) {
			kit.Fail(rt, "changing commitment field %d: ID %x -> %x, error %v, equals %v", f, id, id2, err, d.Equals(cm))
		}
		if n := iotago.NewCommitment(cm.ProtocolVersion, cm.Slot, cm.PreviousCommitmentID, cm.RootsID, cm.CumulativeWeight, cm.ReferenceManaCost); kit.RefCommitmentID(n) != id || n.MustID() != id {
			kit.Fail(rt, "NewCommitment of the fields has ID %x, the commitment %x", n.MustID(), id)
		}
		first := &iotago.Commitment{ProtocolVersion: iotago.Version(g.E.Spec.Version), Slot: iotago.SlotIndex(g.E.Spec.GenesisSlot), ReferenceManaCost: g.E.API().ProtocolParameters().CongestionControlParameters().MinReferenceManaCost}
		if n := iotago.NewEmptyCommitment(g.E.API()); n.MustID() != kit.RefCommitmentID(first) || !n.Equals(first) {
			kit.Fail(rt, "NewEmptyCommitment = %+v", n)
		}
		// roots
		r := g.Roots()
		if got, want := r.ID(), kit.RefMerkle(rootVals(r)); got != iotago.Identifier(want) {
			kit.Fail(rt, "Roots.ID = %x, specified %x", got, want)
		}
		// parts of arbitrary identifiers
		oid := g.OutputID("oid")
		var txid iotago.TransactionID
		copy(txid[:], oid[:36])
		outputIDParts(rt, oid, txid, binary.LittleEndian.Uint16(oid[36:]))
		chainIDs(rt, oid, nil)
		s := iotago.SlotIndex(g.Slot("s"))
		data := g.Var(0, 80, "data")
		h := kit.Blake(data)
		if iotago.IdentifierFromData(data) != iotago.Identifier(h) {
			kit.Fail(rt, "IdentifierFromData(%x)", data)
		}
		bid := iotago.BlockIDRepresentingData(s, data)
		parts36(rt, "BlockIDRepresentingData", bid, bid, uint32(s))
		if bid.Identifier() != iotago.Identifier(h) || bid != iotago.NewBlockID(s, h) {
			kit.Fail(rt, "BlockIDRepresentingData(%d,%x) = %x", s, data, bid)
		}
		ti, ci, si := iotago.NewTransactionID(s, h), iotago.NewCommitmentID(s, h), iotago.NewSignedTransactionID(s, h)
		parts36(rt, "NewTransactionID", ti, ti, uint32(s))
		parts36(rt, "NewCommitmentID", ci, ci, uint32(s))
		parts36(rt, "NewSignedTransactionID", si, si, uint32(s))
		if ti != iotago.TransactionIDRepresentingData(s, data) || ci != iotago.CommitmentIDRepresentingData(s, data) || si != iotago.SignedTransactionIDRepresentingData(s, data) {
			kit.Fail(rt, "…IDRepresentingData differs from New…ID of the digest")
		}
		e := iotago.EmptyOutputIDWithCreationSlot(s)
		if e.CreationSlot() != s || e.Index() != 0 {
			kit.Fail(rt, "EmptyOutputIDWithCreationSlot(%d) = %x", s, e)
		}
		var acc iotago.AccountID = g.B32("acc")
		ser := g.U32("ser")
		a := iotago.AccountAddress(acc)
		fid, err := iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme(&a, ser, iotago.TokenSchemeSimple)
		kit.NoErr(rt, err, "FoundryIDFrom…")
		if w := kit.Cat([]byte{8}, acc[:], binary.LittleEndian.AppendUint32(nil, ser), []byte{0}); !bytes.Equal(fid[:], w) || fid.FoundrySerialNumber() != ser {
			kit.Fail(rt, "foundry ID = %x, specified %x", fid, w)
		}
		name := string(g.Var(0, 20, "net"))
		if n := iotago.NetworkIDFromString(name); n != kit.RefNetworkID(name) {
			kit.Fail(rt, "NetworkIDFromString(%q) = %d", name, n)
		}
		c.NonTrivial(id[:], oid[:])
		c.Label("rest")
		c.Sample("commitment %x, output %x", id, oid)
	})
}

func rootVals(r *iotago.Roots) (v [][]byte) {
	for _, x := range [][32]byte{r.TangleRoot, r.StateMutationRoot, r.StateRoot, r.AccountRoot, r.AttestationsRoot, r.CommitteeRoot, r.RewardsRoot, r.ProtocolParametersHash} {
		x := x
		v = append(v, x[:])
	}
	return
}

// view is one identifier of an object, and what the specification makes it.
type view struct {
	name string
	got  func() ([]byte, error)
	want func() []byte
}

func v36[T ~[36]byte](name string, got func() (T, error), want func() T) view {
	return view{name, func() ([]byte, error) { x, err := got(); b := [36]byte(x); return b[:], err }, func() []byte { b := [36]byte(want()); return b[:] }}
}

func v32[T ~[32]byte](name string, got func() (T, error), want func() T) view {
	return view{name, func() ([]byte, error) { x, err := got(); b := [32]byte(x); return b[:], err }, func() []byte { b := [32]byte(want()); return b[:] }}
}

// C06: an identifier is that of the content the object has now: altering the same object in place alters it, altering it
// back restores it, whatever was asked of the object before.
func TestC06_InPlace(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		api := g.E.API()
		var x any
		var views []view
		kind := ""
		ofTx := func(tx *iotago.Transaction) {
			commit := func() [32]byte { return kit.Blake(kit.EncEssence(tx.TransactionEssence)) }
			views = append(views,
				v36("Transaction.ID", tx.ID, func() iotago.TransactionID { return kit.RefTxID(tx) }),
				v32("OutputCommitment", tx.OutputCommitment, func() iotago.Identifier { return iotago.Identifier(kit.RefOutCommit(tx)) }),
				v32("TransactionCommitment", tx.TransactionCommitment, func() iotago.Identifier { return iotago.Identifier(commit()) }),
				view{"Transaction.SigningMessage", tx.SigningMessage, func() []byte { w := kit.RefSigningMsg(tx); return w[:] }},
			)
		}
		ofFoundry := func(o *iotago.FoundryOutput) {
			views = append(views, view{"FoundryID", func() ([]byte, error) { f, err := o.FoundryID(); return f[:], err }, func() []byte { f := kit.RefFoundryID(o); return f[:] }})
		}
		switch g.Int(0, 5, "kind") {
		case 0:
			b := g.Block()
			x, kind = b, "block"
			views = append(views,
				v36("Block.ID", b.ID, func() iotago.BlockID { return kit.RefBlockID(g.E.Spec, b) }),
				view{"Block.SigningMessage", b.SigningMessage, func() []byte { return kit.RefBlockMsg(b) }},
				v32("Block.Body.Hash", b.Body.Hash, func() iotago.Identifier { return iotago.Identifier(kit.Blake(kit.EncBody(b.Body))) }),
				v32("Block.Header.Hash", func() (iotago.Identifier, error) { return b.Header.Hash(api) }, func() iotago.Identifier { return iotago.Identifier(kit.Blake(kit.EncHeader(b.Header))) }),
			)
			if bb, ok := b.Body.(*iotago.BasicBlockBody); ok {
				if st, ok := bb.Payload.(*iotago.SignedTransaction); ok {
					views = append(views, v36("SignedTransaction.ID", st.ID, func() iotago.SignedTransactionID { return kit.RefSignedTxID(st) }))
					ofTx(st.Transaction)
				}
			}
		case 1:
			a := iotago.NewAttestation(api, g.Block())
			x, kind = a, "attestation"
			views = append(views, v36("Attestation.BlockID", a.BlockID, func() iotago.BlockID {
				hh := kit.Blake(kit.EncHeader(a.Header))
				h := kit.Blake(hh[:], a.BodyHash[:], kit.EncSig(a.Signature))
				return iotago.NewBlockID(iotago.SlotIndex(g.E.RefSlotOf(a.Header.IssuingTime)), h)
			}))
		case 2:
			st := g.Tx(kit.TxOpt{})
			x, kind = st, "transaction"
			views = append(views, v36("SignedTransaction.ID", st.ID, func() iotago.SignedTransactionID { return kit.RefSignedTxID(st) }))
			ofTx(st.Transaction)
			for _, o := range st.Transaction.Outputs {
				if f, ok := o.(*iotago.FoundryOutput); ok {
					ofFoundry(f)
				}
			}
		case 3:
			cm := g.Commitment()
			x, kind = cm, "commitment"
			views = append(views, v36("Commitment.ID", cm.ID, func() iotago.CommitmentID { return kit.RefCommitmentID(cm) }))
		case 4:
			r := g.Roots()
			x, kind = r, "roots"
			views = append(views, v32("Roots.ID", func() (iotago.Identifier, error) { return r.ID(), nil }, func() iotago.Identifier { return iotago.Identifier(kit.RefMerkle(rootVals(r))) }))
		case 5:
			o := g.Output(kit.OKind(3), "foundry").(*iotago.FoundryOutput)
			x, kind = o, "foundry"
			ofFoundry(o)
		}
		changed := 0
		look := func(when string) (r [][]byte) {
			for _, v := range views {
				var got []byte
				var err error
				if p := kit.Panics(func() { got, err = v.got() }); p != nil || err != nil {
					r = append(r, nil) // altered into something without identity: other properties judge that
					continue
				}
				if want := v.want(); !bytes.Equal(got, want) {
					kit.Fail(rt, "%s, %s of a %s = %x, specified %x", when, v.name, kind, got, want)
				}
				r = append(r, got)
			}
			return
		}
		last := look("at first")
		for i, n := 0, g.Int(1, 3, "changes"); i < n; i++ {
			ls := kit.Leaves(x)
			l := ls[g.Int(0, len(ls)-1, "leaf")]
			l.Do(g.U64("k"))
			now := look("after changing " + l.Path)
			for j := range now {
				if !bytes.Equal(now[j], last[j]) {
					changed++
				}
			}
			last = now
			c.Label(kind)
			if i == 0 {
				c.Sample("%s: %s changed in place", kind, l.Path)
			}
		}
		if changed > 0 {
			c.NonTrivial(kind, bytes.Join(last, nil))
		}
	})
}
