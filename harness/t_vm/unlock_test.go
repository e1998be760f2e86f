package t_vm

import (
	"fmt"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm/nova"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestC18(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, "C18")
		s.NoDeviations()
		v := s.Build()
		edits := []string{}
		for n := []int{0, 1, 1, 1, 2}[s.Int(0, 4, "edits")]; n > 0; n-- {
			edits = append(edits, s.EditUnlocks(v))
		}
		judge(rt, c, v, s.Parts, edits)
		for _, e := range edits {
			c.Label("edit: " + e)
		}
	})
}

func TestC19(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, "C19")
		v := s.Build()
		edits := append([]string{}, s.Devs...)
		for n := []int{0, 1, 1, 2}[s.Int(0, 3, "edits")]; n > 0; n-- {
			e := s.EditMulti(v)
			c.Label("edit: " + e)
			edits = append(edits, e)
		}
		if _, ok := judge(rt, c, v, s.Parts, edits); !ok {
			return
		}
		// an input is unlocked exactly like with the address inside a restricted one
		w := *v
		w.In = append([]kit.VMIn{}, v.In...)
		changed := false
		for i := range w.In {
			if o, ok := flipOwner(w.In[i].Out); ok && s.Bool("flip") {
				w.In[i].Out = o
				changed = true
			}
		}
		if !changed {
			return
		}
		m := nova.NewVirtualMachine()
		_, e1 := m.ValidateUnlocks(v.Tx, v.Resolved())
		_, e2 := m.ValidateUnlocks(w.Tx, w.Resolved())
		if (e1 == nil) != (e2 == nil) {
			kit.Fail(rt, "unlocking differs (%v, %v) when owners are wrapped in or taken out of restricted addresses: %s and %s", e1, e2, v, &w)
		}
		c.Label("owner wrapping compared")
	})
}

func flip(a iotago.Address) iotago.Address {
	switch a := a.(type) {
	case *iotago.RestrictedAddress:
		return a.Address
	case *iotago.ImplicitAccountCreationAddress:
		return a
	}
	return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: kit.CapsMask(0x1ff)}
}

// flipOwner wraps the owning addresses of an output or takes them out of their restricted address.
func flipOwner(o iotago.Output) (iotago.Output, bool) {
	c := o.Clone()
	ucs, fs, ims := kit.Parts(c)
	done := false
	for i, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			ucs[i] = &iotago.AddressUnlockCondition{Address: flip(u.Address)}
			done = true
		case *iotago.StateControllerAddressUnlockCondition:
			ucs[i] = &iotago.StateControllerAddressUnlockCondition{Address: flip(u.Address)}
			done = true
		case *iotago.GovernorAddressUnlockCondition:
			ucs[i] = &iotago.GovernorAddressUnlockCondition{Address: flip(u.Address)}
			done = true
		case *iotago.ExpirationUnlockCondition:
			ucs[i] = &iotago.ExpirationUnlockCondition{ReturnAddress: flip(u.ReturnAddress), Slot: u.Slot}
		}
	}
	if done {
		kit.SetParts(c, ucs, fs, ims)
	}
	return c, done
}

// receiving by restricted addresses: the library's verdict is the bit mask of what the output needs.
func TestC19_Restricted(t *testing.T) {
	kit.Check(t, 8000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		o := g.Output(kit.OKind(g.Int(0, 5, "ok")), "o")
		need := kit.RequiredCaps(o)
		var mask uint16
		switch g.Int(0, 3, "mask") {
		case 0:
			mask = need
		case 1:
			mask = 0x1ff
		case 2:
			mask = need | uint16(g.Int(0, 511, "more"))
		default:
			mask = uint16(g.Int(0, 511, "any"))
		}
		if need != 0 && g.Bool("drop") { // take one needed bit
			var bits []uint16
			for b := uint16(1); b <= 256; b <<= 1 {
				if need&b != 0 {
					bits = append(bits, b)
				}
			}
			mask &^= bits[g.Int(0, len(bits)-1, "bit")]
		}
		inner := g.Addr(kit.KPlain|kit.KMulti, "inner")
		r := &iotago.RestrictedAddress{Address: inner, AllowedCapabilities: kit.CapsMask(mask)}
		ucs, fs, ims := kit.Parts(o)
		var spots []int
		for i, u := range ucs {
			switch u.(type) {
			case *iotago.AddressUnlockCondition, *iotago.StateControllerAddressUnlockCondition, *iotago.GovernorAddressUnlockCondition, *iotago.ExpirationUnlockCondition:
				spots = append(spots, i)
			}
		}
		// other addresses unrestricted
		for _, i := range spots {
			ucs[i] = setAddr(ucs[i], kit.Keys()[i].Addr)
		}
		if len(spots) == 0 {
			return
		}
		at := spots[g.Int(0, len(spots)-1, "spot")]
		ucs[at] = setAddr(ucs[at], r)
		kit.SetParts(o, ucs, fs, ims)
		err := iotago.OutputsSyntacticalAddressRestrictions()(0, o)
		ok := need&^mask == 0
		what := fmt.Sprintf("%T %x needing %09b to %T restricted to %09b in condition %T", o, kit.EncOutput(o), need, inner, mask, ucs[at])
		if ok != (err == nil) {
			kit.Fail(rt, "allowed %v, library says %v: %s", ok, err, what)
		}
		// the accessors read the mask
		for b, f := range []func() bool{r.CannotReceiveNativeTokens, r.CannotReceiveMana, r.CannotReceiveOutputsWithTimelockUnlockCondition, r.CannotReceiveOutputsWithExpirationUnlockCondition,
			r.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition, r.CannotReceiveAccountOutputs, r.CannotReceiveAnchorOutputs, r.CannotReceiveNFTOutputs, r.CannotReceiveDelegationOutputs} {
			if f() != (mask>>b&1 == 0) {
				kit.Fail(rt, "capability %d of mask %09b misread", b, mask)
			}
		}
		// built sets are minimal, and equal for equal permissions
		bit := func(b int) bool { return mask>>b&1 == 1 }
		built := iotago.RestrictedAddressWithCapabilities(inner, iotago.WithAddressCanReceiveNativeTokens(bit(0)), iotago.WithAddressCanReceiveMana(bit(1)), iotago.WithAddressCanReceiveOutputsWithTimelockUnlockCondition(bit(2)),
			iotago.WithAddressCanReceiveOutputsWithExpirationUnlockCondition(bit(3)), iotago.WithAddressCanReceiveOutputsWithStorageDepositReturnUnlockCondition(bit(4)), iotago.WithAddressCanReceiveAccountOutputs(bit(5)),
			iotago.WithAddressCanReceiveAnchorOutputs(bit(6)), iotago.WithAddressCanReceiveNFTOutputs(bit(7)), iotago.WithAddressCanReceiveDelegationOutputs(bit(8)))
		if string(kit.EncAddr(built)) != string(kit.EncAddr(r)) || !built.Equal(r) || !r.Equal(built) {
			kit.Fail(rt, "address built with capabilities %09b is %x, minimal is %x", mask, kit.EncAddr(built), kit.EncAddr(r))
		}
		if err := iotago.BitMaskNonTrailingZeroBytesValidatorFunc(built.AllowedCapabilities); err != nil {
			kit.Fail(rt, "built capability set %x not minimal: %v", []byte(built.AllowedCapabilities), err)
		}
		for _, tail := range [][]byte{{0}, {0, 0}} {
			if iotago.BitMaskNonTrailingZeroBytesValidatorFunc(append(append([]byte{}, built.AllowedCapabilities...), tail...)) == nil {
				kit.Fail(rt, "capability set with trailing zeros accepted")
			}
		}
		other := &iotago.RestrictedAddress{Address: inner, AllowedCapabilities: kit.CapsMask(mask ^ 1<<g.Int(0, 8, "flip"))}
		if other.Equal(r) || other.Key() == r.Key() {
			kit.Fail(rt, "addresses with different capabilities %x and %x are equal", []byte(other.AllowedCapabilities), []byte(r.AllowedCapabilities))
		}
		c.Label(fmt.Sprintf("allowed %v", ok))
		c.NonTrivial(kit.EncOutput(o))
		c.Sample("%s: %v", what, ok)
	})
}

func setAddr(u iotago.UnlockCondition, a iotago.Address) iotago.UnlockCondition {
	switch u := u.(type) {
	case *iotago.AddressUnlockCondition:
		return &iotago.AddressUnlockCondition{Address: a}
	case *iotago.StateControllerAddressUnlockCondition:
		return &iotago.StateControllerAddressUnlockCondition{Address: a}
	case *iotago.GovernorAddressUnlockCondition:
		return &iotago.GovernorAddressUnlockCondition{Address: a}
	case *iotago.ExpirationUnlockCondition:
		return &iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: u.Slot}
	}
	return u
}
