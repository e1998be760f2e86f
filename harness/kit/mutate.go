package kit

import (
	"fmt"

	iotago "github.com/iotaledger/iota.go/v4"
)

// MutateBytes applies between one and three random edits; it says what it did.
func (g *G) MutateBytes(b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	desc := ""
	for i, n := 0, g.Int(1, 3, "edits"); i < n; i++ {
		if len(b) == 0 {
			b = append(b, byte(g.Int(0, 255, "byte")))
			continue
		}
		// positions cluster at the start (type tags, lengths) half of the time
		p := g.Int(0, len(b)-1, "pos")
		if g.Bool("low") {
			p = g.Int(0, min(len(b)-1, 24), "lowpos")
		}
		switch k := g.Int(0, 8, "edit"); k {
		case 0:
			b[p] ^= 1 << g.Int(0, 7, "bit")
			desc += fmt.Sprintf("flip@%d ", p)
		case 1:
			b[p] = byte(g.Int(0, 255, "byte"))
			desc += fmt.Sprintf("set@%d ", p)
		case 2:
			b[p] = []byte{0, 1, 2, 255, 128, 127, 8, 40}[g.Int(0, 7, "edge")]
			desc += fmt.Sprintf("edge@%d ", p)
		case 3:
			b = append(b[:p], append([]byte{byte(g.Int(0, 255, "byte"))}, b[p:]...)...)
			desc += fmt.Sprintf("ins@%d ", p)
		case 4:
			b = append(b[:p], b[p+1:]...)
			desc += fmt.Sprintf("del@%d ", p)
		case 5:
			b = b[:p]
			desc += fmt.Sprintf("trunc@%d ", p)
		case 6: // duplicate a run
			l := g.Int(1, min(80, len(b)-p), "len")
			run := append([]byte{}, b[p:p+l]...)
			b = append(b[:p], append(run, b[p:]...)...)
			desc += fmt.Sprintf("dup@%d+%d ", p, l)
		case 7: // swap neighbouring runs of equal length
			l := []int{1, 2, 4, 8, 32, 33, 34, 36, 39, 40}[g.Int(0, 9, "run")]
			if p+2*l <= len(b) {
				x := append([]byte{}, b[p:p+l]...)
				copy(b[p:], b[p+l:p+2*l])
				copy(b[p+l:], x)
			}
			desc += fmt.Sprintf("swap@%d+%d ", p, l)
		case 8: // increment or decrement
			b[p] += byte(1 + 254*g.Int(0, 1, "dir"))
			desc += fmt.Sprintf("incdec@%d ", p)
		}
	}
	return b, desc
}

// swapOrDup disorders a list: swaps two neighbours or duplicates one element. It returns nil when impossible.
func swapOrDup[T any](g *G, xs []T, l string) ([]T, string) {
	if len(xs) == 0 {
		return nil, ""
	}
	i := g.Int(0, len(xs)-1, l+".i")
	if len(xs) > 1 && g.Bool(l+".swap") {
		if i == len(xs)-1 {
			i--
		}
		r := append([]T{}, xs...)
		r[i], r[i+1] = r[i+1], r[i]
		return r, "swap"
	}
	x := xs[i]
	if g.Rare(3, l+".twin") {
		x = twin(g, x, l)
	}
	r := append(append(append([]T{}, xs[:i+1]...), x), xs[i+1:]...)
	return r, "dup"
}

// twin copies an element of a set, with another value for the same key.
func twin[T any](g *G, x T, l string) T {
	switch e := any(x).(type) {
	case *iotago.AddressWithWeight:
		return any(&iotago.AddressWithWeight{Address: e.Address, Weight: e.Weight + byte(g.Int(0, 3, l+".w"))}).(T)
	case *iotago.Allotment:
		return any(&iotago.Allotment{AccountID: e.AccountID, Mana: e.Mana + iotago.Mana(g.Int(0, 3, l+".m"))}).(T)
	case *iotago.CommitmentInput:
		id := e.CommitmentID
		id[g.Int(0, len(id)-1, l+".i")]++
		return any(&iotago.CommitmentInput{CommitmentID: id}).(T)
	case *iotago.AddressUnlockCondition:
		return any(&iotago.AddressUnlockCondition{Address: g.Addr(KAll&^KImp, l)}).(T)
	case *iotago.TimelockUnlockCondition:
		return any(&iotago.TimelockUnlockCondition{Slot: e.Slot + 1}).(T)
	case *iotago.TagFeature:
		return any(&iotago.TagFeature{Tag: append(append([]byte{}, e.Tag[:len(e.Tag)-1]...), e.Tag[len(e.Tag)-1]+1)}).(T)
	case *iotago.NativeTokenFeature:
		id := e.ID
		id[g.Int(1, len(id)-1, l+".i")]++
		return any(&iotago.NativeTokenFeature{ID: id, Amount: e.Amount}).(T)
	}
	return x
}

// Disorders lists the disordering edits applicable to a transaction; each edit changes the transaction in place.
func (g *G) Disorders(t *iotago.Transaction) (names []string, edits []func() bool) {
	add := func(n string, f func() bool) { names = append(names, n); edits = append(edits, f) }
	es := t.TransactionEssence
	if len(es.ContextInputs) > 0 {
		add("context inputs", func() bool { x, _ := swapOrDup(g, es.ContextInputs, "d"); es.ContextInputs = x; return true })
	}
	if len(es.Allotments) > 0 {
		add("allotments", func() bool { x, _ := swapOrDup(g, es.Allotments, "d"); es.Allotments = x; return true })
	}
	add("inputs duplicated", func() bool {
		es.Inputs = append(es.Inputs, es.Inputs[g.Int(0, len(es.Inputs)-1, "d")])
		return true
	})
	add("capability mask padded", func() bool {
		es.Capabilities = append(append(iotago.TransactionCapabilitiesBitMask{}, es.Capabilities...), 0)
		return true
	})
	for _, o := range t.Outputs {
		ns, es := g.OutputDisorders(o)
		names, edits = append(names, ns...), append(edits, es...)
	}
	return
}

// OutputDisorders lists the edits which disorder parts of the output.
func (g *G) OutputDisorders(o iotago.Output) (names []string, edits []func() bool) {
	add := func(n string, f func() bool) { names = append(names, n); edits = append(edits, f) }
	ucs, fs, ims := Parts(o)
	set := func(u []iotago.UnlockCondition, f, im []iotago.Feature) {
		SetParts(o, u, f, im)
	}
	_, isDel := o.(*iotago.DelegationOutput)
	if len(ucs) > 0 {
		add("unlock conditions", func() bool { x, _ := swapOrDup(g, ucs, "d"); set(x, fs, ims); return true })
	}
	if len(fs) > 0 {
		add("features", func() bool { x, _ := swapOrDup(g, fs, "d"); set(ucs, x, ims); return true })
	}
	if len(ims) > 0 && !isDel {
		add("immutable features", func() bool { x, _ := swapOrDup(g, ims, "d"); set(ucs, fs, x); return true })
	}
	for _, f := range fs {
		if bi, ok := f.(*iotago.BlockIssuerFeature); ok {
			add("block issuer keys", func() bool { x, _ := swapOrDup(g, bi.BlockIssuerKeys, "d"); bi.BlockIssuerKeys = x; return true })
		}
	}
	for _, a := range AllAddrs(o) {
		ns, es := g.AddrDisorders(a)
		names, edits = append(names, ns...), append(edits, es...)
	}
	return
}

// AddrDisorders lists the edits which make an address non-canonical.
func (g *G) AddrDisorders(a iotago.Address) (names []string, edits []func() bool) {
	switch a := a.(type) {
	case *iotago.MultiAddress:
		names = append(names, "multi address members")
		edits = append(edits, func() bool { x, _ := swapOrDup(g, a.Addresses, "d"); a.Addresses = x; return true })
	case *iotago.RestrictedAddress:
		names = append(names, "restricted mask padded")
		edits = append(edits, func() bool {
			a.AllowedCapabilities = append(append(iotago.AddressCapabilitiesBitMask{}, a.AllowedCapabilities...), 0)
			return true
		})
		n2, e2 := g.AddrDisorders(a.Address)
		names, edits = append(names, n2...), append(edits, e2...)
	}
	return
}

// AllAddrs lists every address inside an output.
func AllAddrs(o iotago.Output) (r []iotago.Address) {
	ucs, fs, ims := Parts(o)
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.StorageDepositReturnUnlockCondition:
			r = append(r, u.ReturnAddress)
		case *iotago.ExpirationUnlockCondition:
			r = append(r, u.ReturnAddress)
		case *iotago.StateControllerAddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.GovernorAddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.ImmutableAccountUnlockCondition:
			r = append(r, u.Address)
		}
	}
	for _, f := range append(append([]iotago.Feature{}, fs...), ims...) {
		switch f := f.(type) {
		case *iotago.SenderFeature:
			r = append(r, f.Address)
		case *iotago.IssuerFeature:
			r = append(r, f.Address)
		}
	}
	return
}

func toT[T any, S any](xs []S) (r []T) {
	for _, x := range xs {
		r = append(r, any(x).(T))
	}
	return
}

// SetParts replaces the unlock conditions and features of an output.
func SetParts(o iotago.Output, u []iotago.UnlockCondition, f, im []iotago.Feature) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.UnlockConditions = toT[iotago.BasicOutputUnlockCondition](u)
		o.Features = toT[iotago.BasicOutputFeature](f)
	case *iotago.AccountOutput:
		o.UnlockConditions = toT[iotago.AccountOutputUnlockCondition](u)
		o.Features = toT[iotago.AccountOutputFeature](f)
		o.ImmutableFeatures = toT[iotago.AccountOutputImmFeature](im)
	case *iotago.AnchorOutput:
		o.UnlockConditions = toT[iotago.AnchorOutputUnlockCondition](u)
		o.Features = toT[iotago.AnchorOutputFeature](f)
		o.ImmutableFeatures = toT[iotago.AnchorOutputImmFeature](im)
	case *iotago.FoundryOutput:
		o.UnlockConditions = toT[iotago.FoundryOutputUnlockCondition](u)
		o.Features = toT[iotago.FoundryOutputFeature](f)
		o.ImmutableFeatures = toT[iotago.FoundryOutputImmFeature](im)
	case *iotago.NFTOutput:
		o.UnlockConditions = toT[iotago.NFTOutputUnlockCondition](u)
		o.Features = toT[iotago.NFTOutputFeature](f)
		o.ImmutableFeatures = toT[iotago.NFTOutputImmFeature](im)
	case *iotago.DelegationOutput:
		o.UnlockConditions = toT[iotago.DelegationOutputUnlockCondition](u)
	}
}

// BlockDisorders lists the edits on the parents of a block.
func (g *G) BlockDisorders(b *iotago.Block) (names []string, edits []func() bool) {
	lists := []*iotago.BlockIDs{}
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		lists = append(lists, &body.StrongParents, &body.WeakParents, &body.ShallowLikeParents)
		if p, ok := body.Payload.(*iotago.SignedTransaction); ok {
			names, edits = g.Disorders(p.Transaction)
		}
	case *iotago.ValidationBlockBody:
		lists = append(lists, &body.StrongParents, &body.WeakParents, &body.ShallowLikeParents)
	}
	for i, l := range lists {
		if len(*l) > 0 {
			names = append(names, fmt.Sprintf("parents list %d", i))
			edits = append(edits, func() bool { x, _ := swapOrDup(g, *l, "d"); *l = x; return true })
		}
	}
	return
}
