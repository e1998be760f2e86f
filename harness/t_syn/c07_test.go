package t_syn

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func dummyInput(i int) *iotago.UTXOInput {
	u := &iotago.UTXOInput{TransactionOutputIndex: uint16(i % 128)}
	u.TransactionID[0], u.TransactionID[1], u.TransactionID[31] = byte(i), byte(i>>8), 0xdd
	return u
}

// setInputs gives the transaction n inputs and matching unlocks (one signature, references to it).
func setInputs(g *kit.G, t *iotago.SignedTransaction, n int) {
	es := t.Transaction.TransactionEssence
	es.Inputs = nil
	t.Unlocks = nil
	for i := 0; i < n; i++ {
		es.Inputs = append(es.Inputs, dummyInput(i))
		if i == 0 {
			t.Unlocks = append(t.Unlocks, &iotago.SignatureUnlock{Signature: g.Sig(0)})
		} else {
			t.Unlocks = append(t.Unlocks, &iotago.ReferenceUnlock{})
		}
	}
}

func txEdits(g *kit.G, t *iotago.SignedTransaction) (e edits) {
	s := g.E.Spec
	tx := t.Transaction
	es := tx.TransactionEssence
	mx := s.MaxMana().Uint64()
	e.add("network", func() { es.NetworkID ^= 1 << g.Int(0, 63, "nb") })
	e.add("creation slot", func() { es.CreationSlot = iotago.SlotIndex(g.U32("cs")) })
	e.add("capabilities", func() {
		es.Capabilities = []iotago.TransactionCapabilitiesBitMask{{}, {0}, {1, 0}, {1, 1}, {0x3f}, {0xff}, {0x80}, {0, 1}}[g.Int(0, 7, "caps")]
	})
	e.add("input repeated", func() {
		i := g.Int(0, len(es.Inputs)-1, "i")
		u := *es.Inputs[i].(*iotago.UTXOInput)
		es.Inputs = append(es.Inputs, &u)
		t.Unlocks = append(t.Unlocks, &iotago.SignatureUnlock{Signature: g.Sig(500)})
	})
	e.add("sibling input", func() { // same transaction, other index
		u := *es.Inputs[g.Int(0, len(es.Inputs)-1, "i")].(*iotago.UTXOInput)
		u.TransactionOutputIndex = (u.TransactionOutputIndex + 1) % 128
		es.Inputs = append(es.Inputs, &u)
		t.Unlocks = append(t.Unlocks, &iotago.SignatureUnlock{Signature: g.Sig(500)})
	})
	e.add("input index", func() {
		es.Inputs[g.Int(0, len(es.Inputs)-1, "i")].(*iotago.UTXOInput).TransactionOutputIndex = uint16([]int{0, 127, 128, 256, 65535}[g.Int(0, 4, "ix")])
	})
	e.add("inputs swapped", func() { es.Inputs = alter(g, es.Inputs, "swap", nil) })
	e.add("input count", func() { setInputs(g, t, []int{0, 1, 127, 128, 129}[g.Int(0, 4, "n")]) })
	e.add("output count", func() {
		tx.Outputs = nil
		for i, n := 0, []int{0, 1, 127, 128, 129}[g.Int(0, 4, "n")]; i < n; i++ {
			o := &iotago.BasicOutput{Amount: 1, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: kit.Keys()[0].Addr}}}
			if md := kit.RefMinDeposit(s, o).Uint64(); md > 0 {
				o.Amount = iotago.BaseToken(md)
			}
			tx.Outputs = append(tx.Outputs, o)
		}
	})
	e.add("context input added", func() {
		var cs iotago.TxEssenceContextInputs
		switch g.Int(0, 2, "ck") {
		case 0:
			cs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: g.CommitmentID("cid")}}
		case 1:
			cs = iotago.TxEssenceContextInputs{&iotago.BlockIssuanceCreditInput{AccountID: g.B32("cacc")}}
		default:
			cs = iotago.TxEssenceContextInputs{&iotago.RewardInput{Index: uint16(g.Int(0, len(es.Inputs)+1, "ri"))}}
		}
		i := g.Int(0, len(es.ContextInputs), "at")
		es.ContextInputs = append(append(append(iotago.TxEssenceContextInputs{}, es.ContextInputs[:i]...), cs...), es.ContextInputs[i:]...)
	})
	if len(es.ContextInputs) > 0 {
		e.add("context input removed", func() { es.ContextInputs = alter(g, es.ContextInputs, "rm", nil) })
		e.add("context input repeated", func() { es.ContextInputs = alter(g, es.ContextInputs, "dup", nil) })
		e.add("context inputs swapped", func() { es.ContextInputs = alter(g, es.ContextInputs, "swap", nil) })
		e.add("context input cleared", func() { es.ContextInputs = nil })
		for _, c := range es.ContextInputs {
			if r, ok := c.(*iotago.RewardInput); ok {
				e.add("reward index", func() {
					r.Index = uint16([]int{0, len(es.Inputs) - 1, len(es.Inputs), 127, 128, 65535}[g.Int(0, 5, "ri")])
				})
			}
		}
	}
	e.add("context input count", func() {
		n := []int{127, 128, 129}[g.Int(0, 2, "n")]
		es.ContextInputs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: g.CommitmentID("cid")}}
		for i := 1; i < n; i++ {
			es.ContextInputs = append(es.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: iotago.AccountID{byte(i)}})
		}
	})
	e.add("rewards for all inputs", func() {
		n := []int{126, 127, 128}[g.Int(0, 2, "n")]
		setInputs(g, t, n)
		es.ContextInputs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: g.CommitmentID("cid")}}
		for i := 0; i < n-g.Int(0, 1, "less"); i++ {
			es.ContextInputs = append(es.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
		}
	})
	e.add("allotment added", func() {
		es.Allotments = alter(g, es.Allotments, "add", func() *iotago.Allotment {
			return &iotago.Allotment{AccountID: g.B32("aacc"), Mana: iotago.Mana(g.U64("am"))}
		})
	})
	if len(es.Allotments) > 0 {
		e.add("allotment repeated", func() { es.Allotments = alter(g, es.Allotments, "dup", nil) })
		e.add("allotments swapped", func() { es.Allotments = alter(g, es.Allotments, "swap", nil) })
		e.add("allotted account zero", func() { es.Allotments[0].AccountID = iotago.AccountID{} })
		e.add("allotted mana", func() {
			i := g.Int(0, len(es.Allotments)-1, "i")
			var rest uint64
			for j, a := range es.Allotments {
				if j != i {
					rest += uint64(a.Mana)
				}
			}
			es.Allotments[i].Mana = iotago.Mana([]uint64{0, mx - rest, mx - rest + 1, mx, mx + 1, 1<<64 - 1 - rest, -rest}[g.Int(0, 6, "am")])
		})
	}
	e.add("allotment count", func() {
		es.Allotments = nil
		for i, n := 0, []int{127, 128, 129}[g.Int(0, 2, "n")]; i < n; i++ {
			es.Allotments = append(es.Allotments, &iotago.Allotment{AccountID: iotago.AccountID{byte(i + 1)}, Mana: 1})
		}
	})
	e.add("payload", func() {
		es.Payload = &iotago.TaggedData{Tag: kit.Expand(1, []int{0, 64, 65}[g.Int(0, 2, "tl")]), Data: kit.Expand(2, []int{0, 8192, 8193}[g.Int(0, 2, "dl")])}
	})
	if len(tx.Outputs) > 0 {
		i := g.Int(0, len(tx.Outputs)-1, "oi")
		o := tx.Outputs[i]
		e.add("amount sum", func() {
			var rest uint64
			for j, x := range tx.Outputs {
				if j != i {
					rest += kit.AmountOf(x)
				}
			}
			*amountOf(o) = iotago.BaseToken([]uint64{s.Supply - rest, s.Supply - rest + 1, 1<<64 - 1 - rest, -rest}[g.Int(0, 3, "am")])
		})
		if m := manaOf(o); m != nil {
			e.add("mana sum", func() {
				var rest uint64
				for j, x := range tx.Outputs {
					if j != i {
						rest += kit.ManaStored(x)
					}
				}
				*m = iotago.Mana([]uint64{mx - rest, mx - rest + 1, 1<<64 - 1 - rest, -rest}[g.Int(0, 3, "am")])
			})
		}
		e.add("output edit: ", func() {
			if p := kit.Panics(func() { outputEdits(g, o).pick(g) }); p != nil {
				if !strings.Contains(fmt.Sprint(p), "interface conversion") {
					panic(p)
				}
			}
		})
		e.add("chain repeated", func() {
			k := kit.OKind(g.Int(1, 5, "ck"))
			a, b := g.Output(k, "c1"), g.Output(k, "c2")
			if g.Int(0, 3, "same") > 0 {
				copyChainID(a, b)
			}
			tx.Outputs = append(tx.Outputs, a, b)
			if !hasCommitment(es) {
				es.ContextInputs = append(iotago.TxEssenceContextInputs{&iotago.CommitmentInput{}}, es.ContextInputs...)
			}
		})
	}
	e.add("unlock removed", func() { t.Unlocks = t.Unlocks[:len(t.Unlocks)-1] })
	e.add("unlock added", func() { t.Unlocks = append(t.Unlocks, &iotago.SignatureUnlock{Signature: g.Sig(501)}) })
	return
}

func hasCommitment(es *iotago.TransactionEssence) bool {
	for _, c := range es.ContextInputs {
		if _, ok := c.(*iotago.CommitmentInput); ok {
			return true
		}
	}
	return false
}

func copyChainID(a, b iotago.Output) {
	switch a := a.(type) {
	case *iotago.AccountOutput:
		b.(*iotago.AccountOutput).AccountID = a.AccountID
		if a.AccountID == (iotago.AccountID{}) {
			b.(*iotago.AccountOutput).FoundryCounter = 0
		}
	case *iotago.AnchorOutput:
		b.(*iotago.AnchorOutput).AnchorID = a.AnchorID
		if a.AnchorID == (iotago.AnchorID{}) {
			b.(*iotago.AnchorOutput).StateIndex = 0
		}
	case *iotago.NFTOutput:
		b.(*iotago.NFTOutput).NFTID = a.NFTID
	case *iotago.DelegationOutput:
		b.(*iotago.DelegationOutput).DelegationID = a.DelegationID
	case *iotago.FoundryOutput:
		f := b.(*iotago.FoundryOutput)
		f.SerialNumber = a.SerialNumber
		f.UnlockConditions = a.UnlockConditions
		if nt := f.FeatureSet().NativeToken(); nt != nil {
			nt.ID = kit.RefFoundryID(f)
		}
	}
}

func TestC07(t *testing.T) {
	kit.Check(t, 12000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		tx := g.Tx(kit.TxOpt{MaxIn: 4, MaxOut: 3})
		var names []string
		for i, n := 0, g.Int(0, 2, "edits"); i < n && len(tx.Transaction.TransactionEssence.Inputs) > 0 && len(tx.Unlocks) > 0; i++ {
			names = append(names, txEdits(g, tx).pick(g))
		}
		for _, o := range tx.Transaction.Outputs {
			if skip(o) {
				return
			}
		}
		check(rt, g, c, tx, names)
	})
}

func check(rt *rapid.T, g *kit.G, c *kit.Case, tx *iotago.SignedTransaction, names []string) {
	errs := kit.SignedTxErrs(g.E.Spec, tx)
	enc := kit.EncSignedTx(tx)
	verdicts(rt, g.E, tx, &iotago.SignedTransaction{API: g.E.API()}, enc, errs, fmt.Sprintf("transaction on %s after %q", g.E.Name, names))
	// the transaction by itself, without its unlocks, as it is handled while it is being built
	alone := kit.TxErrs(g.E.Spec, tx.Transaction)
	txEnc := kit.EncTx(tx.Transaction)
	got := &iotago.Transaction{API: g.E.API()}
	n, err := g.E.API().Decode(txEnc, got, serix.WithValidation())
	if err == nil && n != len(txEnc) {
		kit.Fail(rt, "after %q: %d of %d bytes of the transaction by itself decoded", names, n, len(txEnc))
	}
	if err == nil {
		err = got.SyntacticallyValidate(g.E.API())
	}
	if (err == nil) != (len(alone) == 0) {
		kit.Fail(rt, "after %q: decoding and validating the transaction by itself says %v, the rules broken are %q\n encoding %x", names, err, alone, txEnc)
	}
	rulesAlone(rt, g, tx, errs, names)
	seen := map[string]bool{}
	for _, e := range errs {
		if !seen[e] {
			seen[e] = true
			c.Label("broken: " + e)
		}
	}
	if len(seen) == 1 {
		c.Label("exactly one rule broken")
	}
	if len(errs) == 0 {
		c.Label("accepted")
	}
	if len(names) > 0 {
		c.NonTrivial(enc)
	}
	if len(enc) < 20000 {
		c.Sample("%q breaks %q", names, errs)
	}
}

// rulesAlone runs each rule for a list by itself: it decides whatever other rules are broken.
func rulesAlone(rt *rapid.T, g *kit.G, tx *iotago.SignedTransaction, errs []string, names []string) {
	es := tx.Transaction.TransactionEssence
	is := func(name string, err error, rules ...string) {
		want := false
		for _, e := range errs {
			for _, r := range rules {
				want = want || e == r
			}
		}
		if want != (err != nil) {
			kit.Fail(rt, "after %q: the rule of %s by itself says %v, the rules broken are %q", names, name, err, errs)
		}
	}
	inputs := func(f iotago.ElementValidationFunc[iotago.Input]) (err error) {
		for i := 0; i < len(es.Inputs) && err == nil; i++ {
			err = f(i, es.Inputs[i].(iotago.Input))
		}
		return
	}
	ctx := func(f iotago.ElementValidationFunc[iotago.ContextInput]) (err error) {
		for i := 0; i < len(es.ContextInputs) && err == nil; i++ {
			err = f(i, es.ContextInputs[i])
		}
		return
	}
	is("unique inputs", inputs(iotago.InputsSyntacticalUnique()), "input repeated")
	is("input indices", inputs(iotago.InputsSyntacticalIndicesWithinBounds()), "input index")
	is("reward indices", ctx(iotago.ContextInputsRewardInputMaxIndex(uint16(len(es.Inputs)))), "reward index")
	is("required commitments", ctx(iotago.ContextInputsCommitmentInputRequirement()), "reward input without commitment input", "block issuance credit input without commitment input")
	is("unlocks", iotago.ValidateUnlocks(tx.Unlocks, iotago.SignaturesUniqueAndReferenceUnlocksValidator(g.E.API())),
		"signature repeated", "multi unlock repeated", "signature repeated inside multi unlock", "nested multi unlock", "reference inside multi unlock to a reference",
		"reference inside multi unlock to no earlier signature", "empty unlock outside multi unlock", "reference to a reference", "reference to no earlier unlock")
}

// C07: arbitrary unlock sequences.
func TestC07_Unlocks(t *testing.T) {
	kit.Check(t, 25000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		n := g.Int(1, 8, "n")
		if g.Rare(20, "many") {
			n = g.Int(120, 130, "n2")
		}
		o := &iotago.BasicOutput{Amount: 1, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: kit.Keys()[0].Addr}}}
		o.Amount = iotago.BaseToken(new(big.Int).Set(kit.RefMinDeposit(g.E.Spec, o)).Uint64())
		tx := minimalTx(g, o)
		setInputs(g, tx, n)
		tx.Unlocks = nil
		sigs := g.Int(1, 4, "sigs") // small pool of signers
		at := func(i int) uint16 {
			switch {
			case i > 0 && g.Int(0, 5, "back") > 0:
				return uint16(g.Int(0, i-1, "ref"))
			case g.Rare(4, "far"):
				return uint16(g.Int(0, 65535, "far"))
			}
			return uint16(g.Int(0, n-1, "ref"))
		}
		fresh := 0
		sig := func() *iotago.Ed25519Signature {
			if g.Int(0, 3, "fresh") > 0 {
				fresh++
				return g.Sig(100 + fresh)
			}
			s := g.Sig(g.Int(0, sigs-1, "si"))
			if g.Bool("std") {
				s.Signature = [64]byte{}
			}
			return s
		}
		var draw func(i, depth int) iotago.Unlock
		draw = func(i, depth int) iotago.Unlock {
			switch k := g.Int(0, 11, "uk"); {
			case k <= 3 || i == 0 && depth == 0 && k < 10:
				return &iotago.SignatureUnlock{Signature: sig()}
			case k <= 5:
				return &iotago.ReferenceUnlock{Reference: at(i)}
			case k == 6:
				return &iotago.AccountUnlock{Reference: at(i)}
			case k == 7:
				return &iotago.AnchorUnlock{Reference: at(i)}
			case k == 8:
				return &iotago.NFTUnlock{Reference: at(i)}
			case k == 9 && depth == 1:
				return &iotago.EmptyUnlock{}
			case k == 11 && g.Rare(4, "odd"):
				return &iotago.EmptyUnlock{}
			case depth > 0 && !g.Rare(6, "nest"):
				return &iotago.EmptyUnlock{}
			}
			m := &iotago.MultiUnlock{}
			c := g.Int(2, 4, "mc")
			if g.Rare(8, "mcx") {
				c = []int{0, 1, 10, 11}[g.Int(0, 3, "mce")]
			}
			for j := 0; j < c && depth < 2; j++ {
				m.Unlocks = append(m.Unlocks, draw(i, depth+1))
			}
			return m
		}
		for i := 0; i < n; i++ {
			if i > 0 && g.Rare(15, "copy") {
				tx.Unlocks = append(tx.Unlocks, tx.Unlocks[g.Int(0, i-1, "ci")])
				continue
			}
			tx.Unlocks = append(tx.Unlocks, draw(i, 0))
		}
		var names []string
		for _, u := range tx.Unlocks {
			names = append(names, strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%T", u), "*iotago."), "Unlock"))
		}
		check(rt, g, c, tx, names)
	})
}
