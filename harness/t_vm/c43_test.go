package t_vm

import (
	"crypto/ed25519"
	"errors"
	"fmt"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// relatives are addresses that resemble a: they must not be mistaken for it.
func relatives(g *kit.G, a iotago.Address) (r []iotago.Address) {
	r = append(r, a, a.Clone())
	switch a := a.(type) {
	case *iotago.RestrictedAddress:
		r = append(r, a.Address, &iotago.RestrictedAddress{Address: a.Address, AllowedCapabilities: kit.CapsMask(uint16(g.Int(0, 511, "rel.caps")))})
	case *iotago.MultiAddress:
		m := a.Clone().(*iotago.MultiAddress)
		m.Threshold++
		r = append(r, m, a.Addresses[0].Address)
	case *iotago.Ed25519Address:
		r = append(r, &iotago.ImplicitAccountCreationAddress{}, &iotago.RestrictedAddress{Address: a})
		*r[len(r)-2].(*iotago.ImplicitAccountCreationAddress) = iotago.ImplicitAccountCreationAddress(*a)
		x := iotago.AccountAddress(*a)
		r = append(r, &x)
	case *iotago.ImplicitAccountCreationAddress:
		x := iotago.Ed25519Address(*a)
		r = append(r, &x)
	case *iotago.AccountAddress:
		x, y := iotago.AnchorAddress(*a), iotago.NFTAddress(*a)
		r = append(r, &x, &y)
	case *iotago.AnchorAddress:
		x, y := iotago.AccountAddress(*a), iotago.NFTAddress(*a)
		r = append(r, &x, &y)
	case *iotago.NFTAddress:
		x := iotago.AccountAddress(*a)
		r = append(r, &x)
	}
	return
}

func spendableBy(o iotago.Output, next *iotago.AnchorOutput, a iotago.Address, past, future uint32) (bool, error) {
	switch o := o.(type) {
	case *iotago.AnchorOutput:
		if next == nil {
			return o.UnlockableBy(a, nil, iotago.SlotIndex(past), iotago.SlotIndex(future))
		}
		return o.UnlockableBy(a, next, iotago.SlotIndex(past), iotago.SlotIndex(future))
	case iotago.OwnerTransitionIndependentOutput:
		return o.UnlockableBy(a, iotago.SlotIndex(past), iotago.SlotIndex(future)), nil
	}
	panic(fmt.Sprintf("%T answers no query", o))
}

// C43: what outputs say about who may spend them follows from their conditions.
func TestC43_Queries(t *testing.T) {
	kit.Check(t, 8000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		o := g.Output(kit.OKind([]int{0, 0, 0, 1, 2, 2, 3, 4, 4, 5}[g.Int(0, 9, "k")]), "o")
		before := string(kit.EncOutput(o))
		var next *iotago.AnchorOutput
		if a, ok := o.(*iotago.AnchorOutput); ok && !g.Rare(4, "no next") {
			next = a.Clone().(*iotago.AnchorOutput)
			next.StateIndex += uint32(g.Int(-1, 2, "sidx"))
			if next.StateIndex < 2 || a.StateIndex < 2 || a.StateIndex > 1<<31 {
				a.StateIndex = 7
				before = string(kit.EncOutput(o))
				next.StateIndex = uint32(7 + g.Int(-1, 2, "sidx2"))
			}
		}
		// bounds around the condition slots
		base := uint32(g.Int(0, 1<<20, "base"))
		if ss := kit.SlotsOf(o); len(ss) > 0 {
			base = ss[g.Int(0, len(ss)-1, "si")]
			c.Label("bounds at a condition's slot")
		}
		off := int64(g.Int(-3, 3, "off"))
		future := uint32(min(max(int64(base)+off, 0), 1<<32-1))
		past := uint32(min(int64(future)+int64(g.Int(0, 5, "width")), 1<<32-1))
		spender, owner, ok := kit.Spender(o, next, past, future)
		cands := []iotago.Address{g.Addr(kit.KAll, "any")}
		for _, a := range kit.CondAddrs(o) {
			cands = append(cands, relatives(g, a)...)
		}
		for _, a := range cands {
			want := spender != nil && kit.RefAddrID(spender) == kit.RefAddrID(a)
			got, err := spendableBy(o, next, a, past, future)
			switch {
			case !ok && !errors.Is(err, iotago.ErrOwnerTransitionDependentOutputNextInvalid):
				kit.Fail(rt, "the anchor's next state has an impossible index but UnlockableBy gives %v, %v", got, err)
			case ok && err != nil:
				kit.Fail(rt, "UnlockableBy fails with %v for %T %x", err, o, before)
			case ok && got != want:
				kit.Fail(rt, "UnlockableBy(%s, past %d, future %d) = %v for %T with condition slots %v and owner %s, expected %v", a, past, future, got, o, kit.SlotsOf(o), owner, want)
			}
		}
		if a, isA := o.(*iotago.AnchorOutput); isA {
			var own iotago.Address
			var err error
			if next == nil {
				own, err = a.Owner(nil)
			} else {
				own, err = a.Owner(next)
			}
			if ok != (err == nil) || ok && kit.RefAddrID(own) != kit.RefAddrID(owner) {
				kit.Fail(rt, "anchor owner %v, %v, expected %v", own, err, owner)
			}
		} else if own := o.(iotago.OwnerTransitionIndependentOutput).Owner(); kit.RefAddrID(own) != kit.RefAddrID(owner) {
			kit.Fail(rt, "owner of %T is %s, expected %s", o, own, owner)
		}
		// the queries on the set of conditions
		set := o.UnlockConditionSet()
		var tl, ex *uint32
		var ret iotago.Address
		var sdr, hasAddr bool
		ucs, _, _ := kit.Parts(o)
		for _, u := range ucs {
			switch u := u.(type) {
			case *iotago.TimelockUnlockCondition:
				x := uint32(u.Slot)
				tl = &x
			case *iotago.ExpirationUnlockCondition:
				x := uint32(u.Slot)
				ex, ret = &x, u.ReturnAddress
			case *iotago.StorageDepositReturnUnlockCondition:
				sdr = true
			case *iotago.AddressUnlockCondition:
				hasAddr = true
			}
		}
		for _, q := range []struct {
			n         string
			got, want bool
		}{
			{"HasTimelockCondition", set.HasTimelockCondition(), tl != nil},
			{"HasExpirationCondition", set.HasExpirationCondition(), ex != nil},
			{"HasStorageDepositReturnCondition", set.HasStorageDepositReturnCondition(), sdr},
			{"Address", set.Address() != nil, hasAddr},
			{"HasTimelockUntil", set.HasTimelockUntil(iotago.SlotIndex(future)), tl != nil && future < *tl},
			{"TimelocksExpired", set.TimelocksExpired(iotago.SlotIndex(future)) == nil, tl == nil || future >= *tl},
			{"OwnerAddressCanUnlock", set.OwnerAddressCanUnlock(iotago.SlotIndex(past)), ex == nil || past < *ex},
		} {
			if q.got != q.want {
				kit.Fail(rt, "%s = %v, expected %v (timelock %v, expiration %v, past %d, future %d)", q.n, q.got, q.want, tl, ex, past, future)
			}
		}
		if err := set.TimelocksExpired(iotago.SlotIndex(future)); err != nil && !errors.Is(err, iotago.ErrTimelockNotExpired) {
			kit.Fail(rt, "TimelocksExpired fails with %v", err)
		}
		can, by := set.ReturnAddressCanUnlock(iotago.SlotIndex(future))
		if can != (ex != nil && future >= *ex) || can && kit.RefAddrID(by) != kit.RefAddrID(ret) {
			kit.Fail(rt, "ReturnAddressCanUnlock(%d) = %v, %v with expiration %v to %v", future, can, by, ex, ret)
		}
		to, err := set.CheckExpirationCondition(iotago.SlotIndex(future), iotago.SlotIndex(past))
		switch {
		case ex != nil && past >= *ex && future < *ex:
			if !errors.Is(err, iotago.ErrExpirationNotUnlockable) {
				kit.Fail(rt, "CheckExpirationCondition(%d, %d) = %v, %v between the bounds of expiration %d", future, past, to, err, *ex)
			}
		case err != nil:
			kit.Fail(rt, "CheckExpirationCondition(%d, %d) fails with %v, expiration %v", future, past, err, ex)
		case can != (to != nil) || can && kit.RefAddrID(to) != kit.RefAddrID(ret):
			kit.Fail(rt, "CheckExpirationCondition(%d, %d) = %v, expiration %v to %v", future, past, to, ex, ret)
		}
		for _, a := range append(cands, func() iotago.Address { x := iotago.AccountAddress(g.B32("acc")); return &x }()) {
			if a, ok := a.(*iotago.AccountAddress); ok {
				id := iotago.AccountID(*a)
				if got, want := set.HasManalockCondition(id, iotago.SlotIndex(future)), kit.RefHasManalock(o, id, future); got != want {
					kit.Fail(rt, "HasManalockCondition(%s, %d) = %v, expected %v", id, future, got, want)
				}
			}
		}
		if string(kit.EncOutput(o)) != before {
			kit.Fail(rt, "queries changed the output")
		}
		switch {
		case !ok:
			c.Label("impossible next state")
		case spender == nil:
			c.Label("spendable by nobody")
		case spender == owner:
			c.Label("spendable by the owner")
		default:
			c.Label("spendable by the return address")
		}
		if ok && (len(ucs) > 1) {
			c.NonTrivial([]byte(before), fmt.Sprint(past, future, next != nil))
		}
		c.Sample("%T slots %v past %d future %d: owner %v, spender %v", o, kit.SlotsOf(o), past, future, owner, spender)
	})
}

// C43: a transaction signed by one of several keys executes exactly if the consumed output says that key may spend it.
func TestC43_Execution(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, "C43")
		s.NoDeviations()
		g := s.G
		past, future := s.Commit+s.E.MaxCA, s.Commit+s.E.MinCA
		ks := kit.Keys()
		ai := g.Int(0, 2, "owner")
		bi := g.Int(0, 2, "other")
		wrap := func(a iotago.Address, l string) iotago.Address {
			if g.Rare(6, l) {
				return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: kit.CapsMask(0x1ff)}
			}
			return a
		}
		own, oth := wrap(ks[ai].Addr, "wrap.o"), wrap(ks[bi].Addr, "wrap.r")
		slot := func(l string) iotago.SlotIndex {
			b := future
			if g.Bool(l + ".past") {
				b = past
			}
			return iotago.SlotIndex(max(1, int64(b)+int64(g.Int(-2, 2, l))))
		}
		var o iotago.Output
		var next *iotago.AnchorOutput
		amount := iotago.BaseToken(g.Int(1000, 1<<40, "amount"))
		ucs := []iotago.UnlockCondition{}
		var id iotago.OutputID
		rid := g.B32("in")
		copy(id[:], rid[:])
		created := uint32(g.Int(int(s.E.GenesisSlot), int(s.Created), "increated"))
		for i := 0; i < 4; i++ {
			id[32+i] = byte(created >> (8 * i))
		}
		paid := iotago.BaseToken(0)
		kind := []string{"basic", "nft", "account", "anchor"}[g.Int(0, 3, "kind")]
		if kind == "anchor" {
			a := &iotago.AnchorOutput{Amount: amount, AnchorID: g.B32("anchor"), StateIndex: uint32(g.Int(0, 9, "si"))}
			ucs = append(ucs, &iotago.StateControllerAddressUnlockCondition{Address: own}, &iotago.GovernorAddressUnlockCondition{Address: oth})
			kit.SetParts(a, ucs, nil, nil)
			if g.Int(0, 2, "next") > 0 {
				next = a.Clone().(*iotago.AnchorOutput)
				next.StateIndex += uint32(g.Int(0, 1, "step"))
			}
			o = a
		} else {
			ucs = append(ucs, &iotago.AddressUnlockCondition{Address: own})
			if kind != "account" {
				if g.Rare(3, "sdr") {
					paid = iotago.BaseToken(g.Int(1, 999, "sdr.a"))
					ucs = append(ucs, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: oth, Amount: paid})
				}
				if g.Rare(3, "tl") {
					ucs = append(ucs, &iotago.TimelockUnlockCondition{Slot: slot("tl.s")})
				}
				if !g.Rare(3, "ex") {
					ucs = append(ucs, &iotago.ExpirationUnlockCondition{ReturnAddress: oth, Slot: slot("ex.s")})
				}
			}
			switch kind {
			case "basic":
				o = &iotago.BasicOutput{Amount: amount}
			case "nft":
				o = &iotago.NFTOutput{Amount: amount, NFTID: g.B32("nft")}
			default:
				o = &iotago.AccountOutput{Amount: amount, AccountID: g.B32("account")}
			}
			kit.SetParts(o, ucs, nil, nil)
		}
		es := &iotago.TransactionEssence{NetworkID: kit.RefNetworkID(s.E.Name), CreationSlot: iotago.SlotIndex(s.Created), Capabilities: iotago.TransactionCapabilitiesBitMask{0x3f}, Inputs: iotago.TxEssenceInputs{kit.UTXOInput(id)}}
		var cid iotago.CommitmentID
		for i := 0; i < 4; i++ {
			cid[32+i] = byte(s.Commit >> (8 * i))
		}
		es.ContextInputs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: cid}}
		tx := &iotago.Transaction{API: s.E.API(), TransactionEssence: es}
		to := func(a iotago.Address, x iotago.BaseToken) {
			tx.Outputs = append(tx.Outputs, &iotago.BasicOutput{Amount: x, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}})
		}
		if next != nil {
			tx.Outputs = append(tx.Outputs, next)
		} else {
			to(ks[3].Addr, amount-paid)
			if paid > 0 {
				to(oth, paid)
			}
		}
		yi := g.Int(0, 2, "signer")
		msg := kit.RefSigningMsg(tx)
		sig := &iotago.Ed25519Signature{}
		copy(sig.PublicKey[:], ks[yi].Priv.Public().(ed25519.PublicKey))
		copy(sig.Signature[:], ed25519.Sign(ks[yi].Priv, msg[:]))
		commit := s.Commit
		v := &kit.VMCase{E: s.E, M: s.E.Model(), In: []kit.VMIn{{ID: id, Out: o}}, Commit: &commit, BIC: map[[32]byte]int64{}, Rewards: map[int]uint64{},
			Tx: &iotago.SignedTransaction{API: s.E.API(), Transaction: tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: sig}}}}
		run := v.Execute()
		if run.Panic != nil {
			kit.Fail(rt, "execution panics: %v: %s", run.Panic, v)
		}
		said := false
		for _, a := range []iotago.Address{own, oth} {
			inner := a
			if r, ok := a.(*iotago.RestrictedAddress); ok {
				inner = r.Address
			}
			if kit.RefAddrID(inner) != kit.RefAddrID(ks[yi].Addr) {
				continue
			}
			can, err := spendableBy(o, next, a, past, future)
			kit.NoErr(rt, err, "UnlockableBy")
			said = said || can
		}
		if said != (run.Err() == nil) {
			kit.Fail(rt, "UnlockableBy says %v for the signer (%s) but executing the transaction gives: %v (past bound %d, future bound %d): %s", said, ks[yi].Addr, run.Err(), past, future, v)
		}
		c.Label(kind + map[bool]string{true: " spent", false: " not spendable by the signer"}[said])
		c.NonTrivial(kit.EncSignedTx(v.Tx), fmt.Sprint(past, future))
		c.Sample("%s %v slots %v past %d future %d: %v", kind, next != nil, kit.SlotsOf(o), past, future, said)
	})
}

// C43: every input of an accepted transaction says that the address which unlocked it may spend it, and no other address.
func TestC43_Cases(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, []string{"C15", "C18", "C19", "C20", "C21"}[rapid.IntRange(0, 4).Draw(rt, "focus")])
		s.NoDeviations()
		v := s.Build()
		if r := v.Execute(); r.Panic != nil || r.Err() != nil {
			c.Label("not accepted")
			return
		}
		var past, future uint32
		if v.Commit != nil {
			past, future = *v.Commit+v.E.MaxCA, *v.Commit+v.E.MinCA
		}
		out := kit.OutChains(v.Tx.Transaction)
		var addrs []iotago.Address
		for i := range v.In {
			addrs = append(addrs, v.Owner(i))
		}
		for i, in := range v.In {
			var next *iotago.AnchorOutput
			if k, ok := kit.InChainKey(in); ok {
				if j, ok := out[k]; ok {
					next, _ = v.Tx.Transaction.Outputs[j].(*iotago.AnchorOutput)
				}
			}
			for j, a := range addrs {
				got, err := spendableBy(in.Out, next, a, past, future)
				kit.NoErr(rt, err, "UnlockableBy")
				if want := kit.RefAddrID(a) == kit.RefAddrID(addrs[i]); got != want {
					kit.Fail(rt, "the transaction is accepted, input %d is unlocked by %s, but UnlockableBy(%s, %d, %d) = %v (owner of input %d): %s", i, addrs[i], a, past, future, got, j, v)
				}
			}
		}
		c.Label("accepted")
		c.NonTrivial(kit.EncSignedTx(v.Tx))
	})
}
