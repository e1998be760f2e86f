package t_misc

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"verif/harness/kit"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
)

// obj33 is an object of one of the kinds with Clone, and how to encode it (independently of the library).
type obj33 struct {
	kind string
	x    any
}

func enc33(x any) []byte {
	switch x := x.(type) {
	case iotago.Output:
		return kit.EncOutput(x)
	case *iotago.MultiAddressReference:
		return append([]byte{0xfe}, x.MultiAddressID...)
	case iotago.Address:
		return kit.EncAddr(x)
	case iotago.Feature:
		return kit.EncFeat(x)
	case iotago.UnlockCondition:
		return kit.EncUC(x)
	case iotago.TokenScheme:
		return kit.EncScheme(x)
	case iotago.ContextInput:
		return kit.EncCtxInput(x)
	case *iotago.UTXOInput:
		return kit.Cat(x.TransactionID[:], []byte{byte(x.TransactionOutputIndex), byte(x.TransactionOutputIndex >> 8)})
	case iotago.Unlock:
		return kit.EncUnlock(x)
	case iotago.Signature:
		return kit.EncSig(x)
	case *iotago.TaggedData:
		return kit.EncTagged(x)
	case *iotago.CandidacyAnnouncement:
		return []byte{2}
	case *iotago.SignedTransaction:
		return kit.EncSignedTx(x)
	case *iotago.Transaction:
		return kit.EncTx(x)
	case *iotago.TransactionEssence:
		return kit.EncEssence(x)
	case iotago.Unlocks:
		return kit.EncUnlocks(x)
	case *iotago.Allotment:
		return kit.Cat(x.AccountID[:], le(uint64(x.Mana)))
	case iotago.Allotments:
		var b []byte
		for _, a := range x {
			b = append(b, enc33(a)...)
		}
		return b
	case iotago.BlockIssuerKey:
		k := x.(*iotago.Ed25519PublicKeyHashBlockIssuerKey)
		return append([]byte{0}, k.PublicKeyHash[:]...)
	case iotago.BlockIssuerKeys:
		b := []byte{byte(len(x))}
		for _, k := range x {
			b = append(b, enc33(k)...)
		}
		return b
	case iotago.AddressCapabilitiesBitMask:
		return kit.Cat(x)
	case iotago.TransactionCapabilitiesBitMask:
		return kit.Cat(x)
	case iotago.OutputSet:
		return encMap(x, func(k iotago.OutputID) string { return string(k[:]) }, func(o iotago.Output) []byte { return kit.EncOutput(o) })
	case iotago.FeatureSet:
		return encMap(x, func(k iotago.FeatureType) string { return string([]byte{byte(k)}) }, kit.EncFeat)
	}
	// typed lists
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Slice {
		b := le(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			b = append(b, enc33(v.Index(i).Interface())...)
		}
		return b
	}
	panic(fmt.Sprintf("[harness-error] no encoding for %T", x))
}

func le(v uint64) []byte {
	var b []byte
	for i := 0; i < 8; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

func encMap[K comparable, V any](m map[K]V, key func(K) string, val func(V) []byte) []byte {
	s := map[string]string{}
	for k, v := range m {
		s[key(k)] = string(val(v))
	}
	return []byte(fmt.Sprintf("%q", s)) // fmt orders map keys
}

// clone33 calls the object's Clone method.
func clone33(x any) any {
	return reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface()
}

// equal33 calls the object's Equal method, if it has one.
func equal33(x, y any) (eq, has bool) {
	m := reflect.ValueOf(x).MethodByName("Equal")
	if !m.IsValid() {
		if m = reflect.ValueOf(x).MethodByName("Equals"); !m.IsValid() {
			return false, false
		}
	}
	if !reflect.TypeOf(y).AssignableTo(m.Type().In(0)) {
		return false, false
	}
	return m.Call([]reflect.Value{reflect.ValueOf(y)})[0].Bool(), true
}

// objs33 draws objects of a random kind together with the parts they are made of.
func objs33(g *kit.G) (r []obj33) {
	add := func(kind string, xs ...any) {
		for _, x := range xs {
			r = append(r, obj33{kind, x})
		}
	}
	addr := func(a iotago.Address) {
		add("address", a)
		if m, ok := a.(*iotago.MultiAddress); ok {
			add("address", &iotago.MultiAddressReference{MultiAddressID: m.ID()}, iotago.NewMultiAddressReferenceFromMultiAddress(iotago.NewMultiAddress(m.Addresses, m.Threshold)))
		}
	}
	output := func(o iotago.Output) {
		add("output", o)
		ucs, fs, ims := kit.Parts(o)
		for _, u := range ucs {
			add("unlock condition", u)
		}
		for _, f := range append(append([]iotago.Feature{}, fs...), ims...) {
			add("feature", f)
			if b, ok := f.(*iotago.BlockIssuerFeature); ok {
				add("block issuer keys", b.BlockIssuerKeys)
				for _, k := range b.BlockIssuerKeys {
					add("block issuer key", k)
				}
			}
		}
		add("feature set", o.FeatureSet())
		for _, a := range kit.AllAddrs(o) {
			addr(a)
			if x, ok := a.(*iotago.RestrictedAddress); ok {
				add("capabilities", x.AllowedCapabilities)
			}
		}
		switch o := o.(type) {
		case *iotago.BasicOutput:
			add("list", o.UnlockConditions, o.Features)
		case *iotago.AccountOutput:
			add("list", o.UnlockConditions, o.Features, o.ImmutableFeatures)
		case *iotago.AnchorOutput:
			add("list", o.UnlockConditions, o.Features, o.ImmutableFeatures)
		case *iotago.NFTOutput:
			add("list", o.UnlockConditions, o.Features, o.ImmutableFeatures)
		case *iotago.FoundryOutput:
			add("token scheme", o.TokenScheme)
			add("list", o.UnlockConditions, o.Features, o.ImmutableFeatures)
		case *iotago.DelegationOutput:
			add("list", o.UnlockConditions)
		}
	}
	switch g.Int(0, 4, "group") {
	case 0, 1:
		raw := g.Bool("raw")
		k := kit.OKind(g.Int(0, 5, "okind"))
		if raw {
			output(g.RawOutput(k, "o"))
		} else {
			output(g.Output(k, "o"))
		}
	case 2:
		for i := 0; i < 3; i++ {
			addr(g.Addr(kit.KAll, "a"))
		}
	case 3:
		st := g.Tx(kit.TxOpt{MaxIn: 6, MaxOut: 6})
		if g.Bool("unlocks") {
			st.Unlocks = g.Unlocks(g.Int(1, 8, "n"))
		}
		t := st.Transaction
		add("signed transaction", st)
		add("transaction", t)
		add("essence", t.TransactionEssence)
		add("unlocks", st.Unlocks)
		for _, u := range st.Unlocks {
			add("unlock", u)
			if s, ok := u.(*iotago.SignatureUnlock); ok {
				add("signature", s.Signature)
			}
		}
		add("allotments", t.Allotments)
		for _, a := range t.Allotments {
			add("allotment", a)
		}
		add("capabilities", t.Capabilities)
		add("list", t.Outputs, t.TransactionEssence.ContextInputs, t.TransactionEssence.Inputs)
		for _, c := range t.TransactionEssence.ContextInputs {
			add("context input", c)
		}
		for _, i := range t.TransactionEssence.Inputs {
			add("input", i)
		}
		set := iotago.OutputSet{}
		for i, o := range t.Outputs {
			set[kit.RefOutputID(iotago.TransactionID{1}, uint16(i))] = o
		}
		add("output set", set)
		if p, ok := t.Payload.(*iotago.TaggedData); ok {
			add("payload", p)
		}
	case 4:
		add("payload", g.Tagged("t"))
		add("payload", &iotago.CandidacyAnnouncement{})
		b := iotago.FoundryOutput{TokenScheme: g.Scheme("s")}
		add("token scheme", b.TokenScheme)
		add("block issuer keys", g.BIKeys("k"))
		add("feature", g.MetaFeat("m"), g.StateMetaFeat("sm"), g.NTFeat("nt"), g.TagFeat("tag"), g.StakeFeat("st"), g.BIFeat("bi"), g.SenderFeat("se"), g.IssuerFeat("is"))
		add("unlock condition", g.SDR("sdr"), g.TL("tl"), g.EX("ex"))
		for _, u := range g.Unlocks(6) {
			add("unlock", u)
		}
	}
	return r
}

// Clones encode the same, compare equal, and share no memory with the original.
func TestC33_Clones(t *testing.T) {
	kit.Check(t, 16000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		os := objs33(g)
		o := os[g.Int(0, len(os)-1, "pick")]
		want := enc33(o.x)
		var cl any
		if p := kit.Panics(func() { cl = clone33(o.x) }); p != nil {
			kit.Fail(rt, "cloning a %T panics: %v", o.x, p)
		}
		if reflect.TypeOf(cl) != reflect.TypeOf(o.x) {
			kit.Fail(rt, "the clone of a %T is a %T", o.x, cl)
		}
		if got := enc33(cl); !bytes.Equal(got, want) {
			kit.Fail(rt, "the clone of a %T differs from it:\noriginal %x\nclone    %x", o.x, want, got)
		}
		if eq, has := equal33(o.x, cl); has && !eq {
			kit.Fail(rt, "a %T is not equal to its clone: %x", o.x, want)
		}
		if eq, has := equal33(cl, o.x); has && !eq {
			kit.Fail(rt, "the clone of a %T is not equal to it: %x", o.x, want)
		}
		if a, ok := o.x.(iotago.Address); ok {
			if a.Key() != cl.(iotago.Address).Key() {
				kit.Fail(rt, "the keys of an address and its clone differ: %x", want)
			}
		}
		a, b, who := o.x, cl, "clone"
		if g.Bool("reverse") {
			a, b, who = b, a, "original"
		}
		n := 0
		if g.Rare(3, "one") {
			// a single change instead of all at once, so that they cannot cancel out
			if ls := kit.Leaves(b); len(ls) > 0 {
				l := ls[g.Int(0, len(ls)-1, "leaf")]
				l.Do(g.U64("k"))
				n = 1
			}
		} else {
			n = kit.Scribble(b)
		}
		if got := enc33(a); !bytes.Equal(got, want) {
			kit.Fail(rt, "changing the %s of a %T changed the other:\nbefore %x\nafter  %x", who, o.x, want, got)
		}
		if n == 0 {
			c.Label(fmt.Sprintf("nothing to change: %s", o.kind))
			return
		}
		c.NonTrivial(fmt.Sprintf("%T", o.x), want)
		c.Label(fmt.Sprintf("clone: %s", o.kind))
		c.Sample(fmt.Sprintf("%T %x: clone equal, %d places of the %s overwritten without effect on the other", o.x, head33(want), n, who))
	})
}

func head33(b []byte) []byte { return b[:min(len(b), 24)] }

// compare33 checks equality (and keys) of two objects against their encodings.
func compare33(rt *rapid.T, x, y any, how string) (same, has bool) {
	same = reflect.TypeOf(x) == reflect.TypeOf(y) && bytes.Equal(enc33(x), enc33(y))
	eq, has := equal33(x, y)
	if has && eq != same {
		kit.Fail(rt, "%s: Equal of %T and %T is %v, but the encodings are\n%x\n%x", how, x, y, eq, enc33(x), enc33(y))
	}
	if eq2, has2 := equal33(y, x); has2 && eq2 != same {
		kit.Fail(rt, "%s: Equal of %T and %T is %v, but the encodings are\n%x\n%x", how, y, x, eq2, enc33(y), enc33(x))
	}
	a, ok := x.(iotago.Address)
	b, ok2 := y.(iotago.Address)
	if ok && ok2 && !refPair33(a, b) && hasKey33(a) && hasKey33(b) {
		if k := a.Key() == b.Key(); k != same {
			kit.Fail(rt, "%s: the keys of %T and %T are equal: %v (%x, %x), but the encodings are\n%x\n%x", how, x, y, k, a.Key(), b.Key(), enc33(x), enc33(y))
		}
	}
	return same, has
}

// refPair33: a multi address and a reference to one deliberately share their key.
func refPair33(a, b iotago.Address) bool {
	is := func(x iotago.Address) bool {
		if r, ok := x.(*iotago.RestrictedAddress); ok {
			x = r.Address
		}
		_, ok := x.(*iotago.MultiAddressReference)
		return ok
	}
	return is(a) != is(b)
}

// hasKey33: capabilities longer than the wire format allows have no key.
func hasKey33(a iotago.Address) bool {
	switch x := a.(type) {
	case *iotago.RestrictedAddress:
		return len(x.AllowedCapabilities) <= 2 && hasKey33(x.Address)
	case *iotago.MultiAddress:
		for _, m := range x.Addresses {
			if !hasKey33(m.Address) {
				return false
			}
		}
		return len(x.Addresses) <= 10
	}
	return true
}

// Equality, and the keys of addresses, against the encodings: objects that differ in one place, and unrelated objects.
func TestC33_Equality(t *testing.T) {
	kit.Check(t, 16000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		os := objs33(g)
		o := os[g.Int(0, len(os)-1, "pick")]
		if g.Rare(5, "pair") {
			p := os[g.Int(0, len(os)-1, "pick2")]
			if g.Bool("other") {
				// one of the same kind from another draw, often of another type
				var like []obj33
				for _, x := range objs33(g) {
					if x.kind == o.kind {
						like = append(like, x)
					}
				}
				if len(like) > 0 {
					p = like[g.Int(0, len(like)-1, "pick3")]
				}
			}
			same, has := compare33(rt, o.x, p.x, "two objects")
			if has && !same {
				c.NonTrivial("pair", fmt.Sprintf("%T", o.x), enc33(o.x), enc33(p.x))
				c.Label(fmt.Sprintf("pair: %s", o.kind))
			}
			return
		}
		// a deep copy that does not rely on Clone: take the same draws from the bytes where possible
		cp := clone33(o.x)
		if a, ok := cp.(iotago.Address); ok && hasKey33(a) && g.Bool("asked") {
			// what it answered before does not matter
			if a.Key() != o.x.(iotago.Address).Key() || a.String() != o.x.(iotago.Address).String() || !bytes.Equal(a.ID(), o.x.(iotago.Address).ID()) {
				kit.Fail(rt, "key, string or ID of %T and its clone differ: %x", o.x, enc33(o.x))
			}
		}
		if a, ok := o.x.(iotago.Address); ok && g.Rare(3, "kind") {
			cp = otherAddr33(g, a)
		} else {
			ls := kit.Leaves(cp)
			if len(ls) == 0 {
				return
			}
			n := 1
			if g.Rare(4, "more") {
				n = 2
			}
			for i := 0; i < n; i++ {
				l := ls[g.Int(0, len(ls)-1, "leaf")]
				if p := kit.Panics(func() { l.Do(g.U64("k")) }); p != nil {
					return // a second change of a place the first removed
				}
			}
		}
		var same, has bool
		if p := kit.Panics(func() { same = bytes.Equal(enc33(o.x), enc33(cp)) }); p != nil {
			kit.Harness(rt, "%v", p)
		}
		same, has = compare33(rt, o.x, cp, "one change")
		if !has {
			return
		}
		c.NonTrivial(fmt.Sprintf("%T", o.x), enc33(o.x), enc33(cp))
		c.Label(fmt.Sprintf("%s, same encoding: %v", o.kind, same))
		c.Sample(fmt.Sprintf("%T: one place changed, Equal agrees with the encodings (%v)", o.x, same))
	})
}

// otherAddr33 derives a nearby address of another kind or with other capabilities.
func otherAddr33(g *kit.G, a iotago.Address) iotago.Address {
	switch x := a.(type) {
	case *iotago.RestrictedAddress:
		switch g.Int(0, 2, "how") {
		case 0:
			return x.Address
		case 1:
			return &iotago.RestrictedAddress{Address: x.Address, AllowedCapabilities: append(append([]byte{}, x.AllowedCapabilities...), 0)}
		default:
			return &iotago.RestrictedAddress{Address: x.Address, AllowedCapabilities: kit.CapsMask(uint16(g.Int(0, 511, "caps")))}
		}
	case *iotago.MultiAddress, *iotago.MultiAddressReference:
		return a.Clone()
	}
	id := a.ID()
	if g.Bool("restrict") {
		return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: kit.CapsMask(uint16(g.Int(0, 511, "caps")))}
	}
	var b [32]byte
	copy(b[:], id[1:])
	switch g.Int(0, 4, "to") {
	case 0:
		r := iotago.Ed25519Address(b)
		return &r
	case 1:
		r := iotago.AccountAddress(b)
		return &r
	case 2:
		r := iotago.NFTAddress(b)
		return &r
	case 3:
		r := iotago.AnchorAddress(b)
		return &r
	}
	r := iotago.ImplicitAccountCreationAddress(b)
	return &r
}
