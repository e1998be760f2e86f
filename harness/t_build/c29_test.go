package t_build

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// model is what a builder program must produce.
type model struct {
	out        iotago.Output
	prev       bool
	state, gov bool
	immChanged bool
}

func putUC(o iotago.Output, u iotago.UnlockCondition) {
	us, fs, ims := kit.Parts(o)
	for i := range us {
		if us[i].Type() == u.Type() {
			us[i] = u
			kit.SetParts(o, us, fs, ims)
			return
		}
	}
	us = append(us, u)
	sort.Slice(us, func(i, j int) bool { return us[i].Type() < us[j].Type() })
	kit.SetParts(o, us, fs, ims)
}

func put(fs []iotago.Feature, f iotago.Feature) []iotago.Feature {
	for i := range fs {
		if fs[i].Type() == f.Type() {
			fs[i] = f
			return fs
		}
	}
	fs = append(fs, f)
	sort.Slice(fs, func(i, j int) bool { return fs[i].Type() < fs[j].Type() })
	return fs
}

func (m *model) uc(u iotago.UnlockCondition) { putUC(m.out, u) }
func (m *model) feat(f iotago.Feature) {
	us, fs, ims := kit.Parts(m.out)
	kit.SetParts(m.out, us, put(fs, f), ims)
}

func (m *model) imm(f iotago.Feature) {
	us, fs, ims := kit.Parts(m.out)
	kit.SetParts(m.out, us, fs, put(ims, f))
}

// set stores a field of the model output.
func (m *model) set(field string, v any) {
	reflect.ValueOf(m.out).Elem().FieldByName(field).Set(reflect.ValueOf(v))
}

// call draws one call of the builder b (any output builder), makes it, and applies it to the model.
func call(rt *rapid.T, g *kit.G, b any, m *model, keys *keyring) string {
	rv := reflect.ValueOf(b)
	has := func(n string) bool { return rv.MethodByName(n).IsValid() }
	do := func(n string, args ...any) {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			in[i] = reflect.ValueOf(a)
		}
		out := rv.MethodByName(n).Call(in)
		if out[0].Interface() != b {
			kit.Fail(rt, "%s returns another builder", n)
		}
	}
	_, anchor := m.out.(*iotago.AnchorOutput)
	_, basic := m.out.(*iotago.BasicOutput)
	amt := iotago.BaseToken(g.U64Max(1<<40, "amt"))
	addrK := kit.KNoImp
	if basic {
		addrK = kit.KAll
	}
	// the builder gets its own copies of everything
	meta := func(l string) (*iotago.MetadataFeature, iotago.MetadataFeatureEntries) {
		f := g.MetaFeat(l)
		return f, f.Clone().(*iotago.MetadataFeature).Entries
	}
	ops := map[string]func(){
		"Amount": func() {
			m.set("Amount", amt)
			m.state = true
			do("Amount", amt)
		},
		"Mana": func() {
			v := iotago.Mana(g.U64("mana"))
			m.set("Mana", v)
			do("Mana", v)
		},
		"Address": func() {
			a := g.Addr(addrK, "a")
			m.uc(&iotago.AddressUnlockCondition{Address: a})
			do("Address", a.Clone())
		},
		"StorageDepositReturn": func() {
			a := g.Addr(kit.KNoImp, "a")
			m.uc(&iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: amt})
			do("StorageDepositReturn", a.Clone(), amt)
		},
		"Timelock": func() {
			s := iotago.SlotIndex(g.U32("tl")) | 1
			m.uc(&iotago.TimelockUnlockCondition{Slot: s})
			do("Timelock", s)
		},
		"Expiration": func() {
			a, s := g.Addr(kit.KNoImp, "a"), iotago.SlotIndex(g.U32("ex"))|1
			m.uc(&iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: s})
			do("Expiration", a.Clone(), s)
		},
		"Sender": func() {
			a := g.Addr(kit.KNoImp, "a")
			m.feat(&iotago.SenderFeature{Address: a})
			do("Sender", a.Clone())
		},
		"Metadata": func() {
			f, e := meta("m")
			m.feat(f)
			m.gov = true
			do("Metadata", e)
		},
		"Tag": func() {
			f := g.TagFeat("t")
			m.feat(f)
			do("Tag", append([]byte{}, f.Tag...))
		},
		"NativeToken": func() {
			f := g.NTFeat("nt")
			m.feat(f)
			do("NativeToken", f.Clone())
		},
		"StateMetadata": func() {
			f := g.StateMetaFeat("sm")
			m.feat(f)
			m.state = true
			do("StateMetadata", f.Clone().(*iotago.StateMetadataFeature).Entries)
		},
		"StateController": func() {
			a := g.Addr(kit.KNoImp, "a")
			m.uc(&iotago.StateControllerAddressUnlockCondition{Address: a})
			m.gov = true
			do("StateController", a.Clone())
		},
		"Governor": func() {
			a := g.Addr(kit.KNoImp, "a")
			m.uc(&iotago.GovernorAddressUnlockCondition{Address: a})
			m.gov = true
			do("Governor", a.Clone())
		},
		"ImmutableIssuer": func() {
			a := g.Addr(kit.KNoImp, "a")
			m.imm(&iotago.IssuerFeature{Address: a})
			do("ImmutableIssuer", a.Clone())
		},
		"ImmutableMetadata": func() {
			f, e := meta("im")
			m.imm(f)
			do("ImmutableMetadata", e)
		},
		"TokenScheme": func() {
			s := g.Scheme("ts")
			m.set("TokenScheme", iotago.TokenScheme(s))
			do("TokenScheme", s.Clone())
		},
		"FoundriesToGenerate": func() {
			o := m.out.(*iotago.AccountOutput)
			n := uint32(g.U64Max(uint64(^uint32(0)-o.FoundryCounter), "fc"))
			o.FoundryCounter += n
			do("FoundriesToGenerate", n)
		},
		"BlockIssuer": func() {
			ks, s := g.BIKeys("k"), iotago.SlotIndex(g.U32("exp"))
			m.feat(&iotago.BlockIssuerFeature{BlockIssuerKeys: ks.Clone(), ExpirySlot: s})
			do("BlockIssuer", keys.give(ks), s)
		},
		"Staking": func() {
			f := g.StakeFeat("st")
			m.feat(f)
			if g.Bool("open") {
				f.EndEpoch = iotago.MaxEpochIndex
				do("Staking", f.StakedAmount, f.FixedCost, f.StartEpoch)
			} else {
				do("Staking", f.StakedAmount, f.FixedCost, f.StartEpoch, f.EndEpoch)
			}
		},
		"RemoveFeature": func() {
			us, fs, ims := kit.Parts(m.out)
			t := rapid.SampledFrom([]iotago.FeatureType{iotago.FeatureSender, iotago.FeatureMetadata, iotago.FeatureBlockIssuer, iotago.FeatureStaking}).Draw(rt, "ft")
			var r []iotago.Feature
			for _, f := range fs {
				if f.Type() != t {
					r = append(r, f)
				}
			}
			kit.SetParts(m.out, us, r, ims)
			do("RemoveFeature", t)
		},
		"DelegatedAmount": func() { m.set("DelegatedAmount", amt); do("DelegatedAmount", amt) },
		"ValidatorAddress": func() {
			a := iotago.AccountAddress(g.B32("val"))
			c := a
			m.set("ValidatorAddress", &a)
			do("ValidatorAddress", &c)
		},
		"StartEpoch": func() {
			e := iotago.EpochIndex(g.U32("se"))
			m.set("StartEpoch", e)
			do("StartEpoch", e)
		},
		"EndEpoch": func() {
			e := iotago.EpochIndex(g.U32("ee"))
			m.set("EndEpoch", e)
			do("EndEpoch", e)
		},
		"AccountID": func() {
			id := iotago.AccountID(g.B32("id"))
			m.set("AccountID", id)
			do("AccountID", id)
		},
		"AnchorID": func() {
			id := iotago.AnchorID(g.B32("id"))
			m.set("AnchorID", id)
			do("AnchorID", id)
		},
		"NFTID": func() {
			id := iotago.NFTID(g.B32("id"))
			m.set("NFTID", id)
			do("NFTID", id)
		},
		"DelegationID": func() {
			id := iotago.DelegationID(g.B32("id"))
			m.set("DelegationID", id)
			do("DelegationID", id)
		},
	}
	// transition helpers
	if x, ok := b.(*builder.AccountOutputBuilder); ok {
		ops["BlockIssuerTransition"] = func() {
			_, fs, _ := kit.Parts(m.out)
			f := &iotago.BlockIssuerFeature{}
			for _, y := range fs {
				if y, ok := y.(*iotago.BlockIssuerFeature); ok {
					f = y
				}
			}
			m.feat(f)
			t := x.BlockIssuerTransition()
			for i, n := 0, g.Int(0, 4, "n"); i < n; i++ {
				switch g.Int(0, 3, "t") {
				case 0:
					ks := g.BIKeys("add")
					if len(ks) > 3 {
						ks = ks[:3]
					}
					t.AddKeys(ks.Clone()...)
					for _, k := range ks {
						f.BlockIssuerKeys = addKey(f.BlockIssuerKeys, k)
					}
				case 1:
					k := iotago.BlockIssuerKey(g.BIKeys("rm")[0])
					if len(f.BlockIssuerKeys) > 0 && !g.Rare(5, "foreign") {
						k = f.BlockIssuerKeys[g.Int(0, len(f.BlockIssuerKeys)-1, "rmi")]
					}
					t.RemoveKey(k.Clone())
					f.BlockIssuerKeys = delKey(f.BlockIssuerKeys, k)
				case 2:
					ks := g.BIKeys("set")
					f.BlockIssuerKeys = ks.Clone()
					t.Keys(keys.give(ks))
				case 3:
					f.ExpirySlot = iotago.SlotIndex(g.U32("exp"))
					t.ExpirySlot(f.ExpirySlot)
				}
			}
			if t.Builder() != x {
				kit.Fail(rt, "BlockIssuerTransition().Builder() is another builder")
			}
		}
		ops["StakingTransition"] = func() {
			_, fs, _ := kit.Parts(m.out)
			f := &iotago.StakingFeature{}
			for _, y := range fs {
				if y, ok := y.(*iotago.StakingFeature); ok {
					f = y
				}
			}
			m.feat(f)
			t, v := x.StakingTransition(), g.StakeFeat("v")
			for i, n := 0, g.Int(0, 4, "n"); i < n; i++ {
				switch g.Int(0, 3, "t") {
				case 0:
					f.StakedAmount = v.StakedAmount
					t.StakedAmount(v.StakedAmount)
				case 1:
					f.FixedCost = v.FixedCost
					t.FixedCost(v.FixedCost)
				case 2:
					f.StartEpoch = v.StartEpoch
					t.StartEpoch(v.StartEpoch)
				case 3:
					f.EndEpoch = v.EndEpoch
					t.EndEpoch(v.EndEpoch)
				}
			}
			if t.Builder() != x {
				kit.Fail(rt, "StakingTransition().Builder() is another builder")
			}
		}
	}
	if x, ok := b.(*builder.AnchorOutputBuilder); ok {
		ops["StateTransition"] = func() {
			m.state = true
			t := x.StateTransition()
			switch g.Int(0, 2, "t") {
			case 0:
				m.set("Amount", amt)
				t = t.Amount(amt)
			case 1:
				m.set("Mana", iotago.Mana(amt))
				t = t.Mana(iotago.Mana(amt))
			case 2:
				f := g.StateMetaFeat("sm")
				m.feat(f)
				t = t.StateMetadata(f.Clone().(*iotago.StateMetadataFeature).Entries)
			}
			if t.Builder() != x {
				kit.Fail(rt, "StateTransition().Builder() is another builder")
			}
		}
		ops["GovernanceTransition"] = func() {
			m.gov = true
			t := x.GovernanceTransition()
			a := g.Addr(kit.KNoImp, "a")
			switch g.Int(0, 2, "t") {
			case 0:
				m.uc(&iotago.StateControllerAddressUnlockCondition{Address: a})
				t = t.StateController(a.Clone())
			case 1:
				m.uc(&iotago.GovernorAddressUnlockCondition{Address: a})
				t = t.Governor(a.Clone())
			case 2:
				f, e := meta("m")
				m.feat(f)
				t = t.Metadata(e)
			}
			if t.Builder() != x {
				kit.Fail(rt, "GovernanceTransition().Builder() is another builder")
			}
		}
	}
	var names []string
	for n := range ops {
		if !has(n) {
			continue
		}
		switch n {
		case "AccountID", "AnchorID", "NFTID":
			if m.prev {
				continue // documented as not to be called
			}
		case "ImmutableIssuer", "ImmutableMetadata":
			if m.prev && !keys.imm {
				continue
			}
		case "Amount", "StateMetadata", "StateTransition":
			if anchor && keys.side == 2 {
				continue
			}
		case "Governor", "StateController", "GovernanceTransition", "Metadata":
			if anchor && keys.side == 1 {
				continue
			}
		}
		names = append(names, n)
	}
	sort.Strings(names)
	n := rapid.SampledFrom(names).Draw(rt, "op")
	ops[n]()
	return n
}

// keyring remembers the key slices handed to the builder: they stay the caller's.
type keyring struct {
	lent, was []iotago.BlockIssuerKeys
	imm       bool
	side      int // 1 state transition only, 2 governance transition only
}

func (k *keyring) give(ks iotago.BlockIssuerKeys) iotago.BlockIssuerKeys {
	k.lent, k.was = append(k.lent, ks), append(k.was, ks.Clone())
	return ks
}

func hash(k iotago.BlockIssuerKey) [32]byte {
	return k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
}

func addKey(ks iotago.BlockIssuerKeys, k iotago.BlockIssuerKey) iotago.BlockIssuerKeys {
	r := append(delKey(ks, k), k)
	sort.Slice(r, func(i, j int) bool { a, b := hash(r[i]), hash(r[j]); return bytes.Compare(a[:], b[:]) < 0 })
	return r
}

func delKey(ks iotago.BlockIssuerKeys, k iotago.BlockIssuerKey) (r iotago.BlockIssuerKeys) {
	for _, x := range ks {
		if hash(x) != hash(k) {
			r = append(r, x)
		}
	}
	return
}

// both builds, and builds as one that must succeed: that panics if building fails and gives the same otherwise.
func both[O iotago.Output](build func() (O, error), must func() O) func() (iotago.Output, error) {
	return func() (iotago.Output, error) {
		o, err := build()
		var m O
		p := kit.Panics(func() { m = must() })
		switch {
		case err != nil && p == nil:
			return nil, nil
		case err == nil && p != nil:
			return nil, fmt.Errorf("MustBuild panics: %v", p)
		case err == nil && !bytes.Equal(kit.EncOutput(m), kit.EncOutput(o)):
			return nil, fmt.Errorf("MustBuild gives %v, Build %v", kit.Hex(kit.EncOutput(m)), kit.Hex(kit.EncOutput(o)))
		}
		if err != nil {
			return nil, err
		}
		return o, nil
	}
}

// fromPrev and fresh give a builder and its build function.
func fromPrev(o iotago.Output) (any, func() (iotago.Output, error)) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		b := builder.NewBasicOutputBuilderFromPrevious(o)
		return b, both(b.Build, b.MustBuild)
	case *iotago.AccountOutput:
		b := builder.NewAccountOutputBuilderFromPrevious(o)
		return b, both(b.Build, b.MustBuild)
	case *iotago.AnchorOutput:
		b := builder.NewAnchorOutputBuilderFromPrevious(o)
		return b, both(b.Build, b.MustBuild)
	case *iotago.FoundryOutput:
		b := builder.NewFoundryOutputBuilderFromPrevious(o)
		return b, both(b.Build, b.MustBuild)
	case *iotago.NFTOutput:
		b := builder.NewNFTOutputBuilderFromPrevious(o)
		return b, both(b.Build, b.MustBuild)
	case *iotago.DelegationOutput:
		b := builder.NewDelegationOutputBuilderFromPrevious(o)
		return b, both(b.Build, b.MustBuild)
	}
	panic(fmt.Sprintf("%T", o))
}

// fresh starts a new output; model is what the builder must hold at first.
func fresh(g *kit.G, k kit.OKind) (any, func() (iotago.Output, error), iotago.Output) {
	amt := iotago.BaseToken(g.U64Max(1<<40, "amt0"))
	a, a2, v := g.Addr(kit.KNoImp, "a0"), g.Addr(kit.KNoImp, "a1"), iotago.AccountAddress(g.B32("v0"))
	v2 := v
	switch k {
	case kit.OBasic:
		b := builder.NewBasicOutputBuilder(a.Clone(), amt)
		return b, both(b.Build, b.MustBuild), &iotago.BasicOutput{Amount: amt, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}}
	case kit.OAccount:
		b := builder.NewAccountOutputBuilder(a.Clone(), amt)
		return b, both(b.Build, b.MustBuild), &iotago.AccountOutput{Amount: amt, UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}}
	case kit.OAnchor:
		b := builder.NewAnchorOutputBuilder(a.Clone(), a2.Clone(), amt)
		return b, both(b.Build, b.MustBuild), &iotago.AnchorOutput{Amount: amt, UnlockConditions: iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: a}, &iotago.GovernorAddressUnlockCondition{Address: a2}}}
	case kit.OFoundry:
		n, s := g.U32("sn"), g.Scheme("ts0")
		b := builder.NewFoundryOutputBuilder(&v2, amt, n, s.Clone().(*iotago.SimpleTokenScheme))
		return b, both(b.Build, b.MustBuild), &iotago.FoundryOutput{Amount: amt, SerialNumber: n, TokenScheme: s, UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &v}}}
	case kit.ONFT:
		b := builder.NewNFTOutputBuilder(a.Clone(), amt)
		return b, both(b.Build, b.MustBuild), &iotago.NFTOutput{Amount: amt, UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}}
	}
	b := builder.NewDelegationOutputBuilder(&v2, a.Clone(), amt)
	return b, both(b.Build, b.MustBuild), &iotago.DelegationOutput{Amount: amt, ValidatorAddress: &v, UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}}
}

func TestC29(t *testing.T) {
	kit.Check(t, 12000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		api := g.E.API()
		k := kit.OKind(g.Int(0, 5, "kind"))
		if g.Rare(3, "stateful kind") {
			k = rapid.SampledFrom([]kit.OKind{kit.OAccount, kit.OAnchor}).Draw(rt, "k2")
		}
		kr := &keyring{imm: g.Rare(6, "imm"), side: g.Int(0, 2, "side")}
		m := &model{}
		var b any
		var build func() (iotago.Output, error)
		var prev iotago.Output
		var before []byte
		if g.Rare(4, "new") {
			b, build, m.out = fresh(g, k)
		} else {
			prev = g.Output(k, "prev")
			if a, ok := prev.(*iotago.AnchorOutput); ok && a.StateIndex == ^uint32(0) {
				a.StateIndex--
			}
			before = kit.EncOutput(prev)
			m.prev = true
			// an independent copy for the model, made without the code's Clone
			cp := reflect.New(reflect.TypeOf(prev).Elem()).Interface().(iotago.Output)
			if _, err := api.Decode(before, cp); err != nil {
				kit.Harness(rt, "decode: %v", err)
			}
			m.out = cp
			b, build = fromPrev(prev)
		}
		base := kit.EncOutput(m.out)
		_, _, im0 := kit.Parts(m.out)
		var imm0 []byte
		for _, f := range im0 {
			imm0 = append(imm0, kit.EncFeat(f)...)
		}
		si := uint32(0)
		if a, ok := m.out.(*iotago.AnchorOutput); ok {
			si = a.StateIndex
		}
		var names []string
		var got iotago.Output
		var err error
		rounds := 1
		if g.Rare(3, "rounds") {
			rounds = 2
		}
		for r := 0; r < rounds; r++ {
			for i, n := 0, g.Int(0, 6, "n"); i < n; i++ {
				names = append(names, call(rt, g, b, m, kr))
			}
			names = append(names, "Build")
			got, err = build()
			_, _, im := kit.Parts(m.out)
			var imm []byte
			for _, f := range im {
				imm = append(imm, kit.EncFeat(f)...)
			}
			an, anchor := m.out.(*iotago.AnchorOutput)
			wantErr := m.prev && (anchor && m.state && m.gov || !bytes.Equal(imm, imm0))
			if (err != nil) != wantErr {
				kit.Fail(rt, "%v: error %v, expected an error: %v (immutable features changed: %v, state %v, governance %v)", names, err, wantErr, !bytes.Equal(imm, imm0), m.state, m.gov)
			}
			if anchor && m.prev && m.state && !wantErr {
				an.StateIndex = si + 1
			}
			if prev != nil && !bytes.Equal(before, kit.EncOutput(prev)) {
				kit.Fail(rt, "%v changed the previous output:\n from %x\n to   %x", names, before, kit.EncOutput(prev))
			}
			for i := range kr.lent {
				if !sameKeys(kr.lent[i], kr.was[i]) {
					kit.Fail(rt, "%v changed the block issuer keys of the caller", names)
				}
			}
			if err == nil {
				if w, x := kit.EncOutput(m.out), kit.EncOutput(got); !bytes.Equal(w, x) {
					kit.Fail(rt, "%T %v:\n want %x\n got  %x\n prev %x", got, names, w, x, base)
				}
			}
		}
		if err != nil {
			c.NonTrivial("refused", k, strings.Join(names, " "))
			return
		}
		// valid whenever the values are
		x := kit.EncOutput(got)
		switch errs := kit.OutputErrs(g.E.Spec, got); {
		case len(errs) == 0:
			enc, err := api.Encode(got)
			kit.NoErr(rt, err, "encode %v", names)
			d := reflect.New(reflect.TypeOf(got).Elem()).Interface().(iotago.Output)
			_, err = api.Decode(enc, d)
			kit.NoErr(rt, err, "decode %v", names)
			if !bytes.Equal(enc, x) || !bytes.Equal(kit.EncOutput(d), x) {
				kit.Fail(rt, "round trip of the built output differs")
			}
			c.Label("valid")
		default:
			for _, e := range errs {
				if strings.Contains(e, "not sorted") || strings.Contains(e, "missing") || strings.Contains(e, "does not permit") {
					kit.Fail(rt, "%v built an output with: %s", names, e)
				}
			}
			c.Label("invalid values")
		}
		// scribbling over the result leaves the previous output alone
		if prev != nil {
			if kit.Scribble(got) == 0 {
				kit.Harness(rt, "nothing scribbled")
			}
			if !bytes.Equal(before, kit.EncOutput(prev)) {
				kit.Fail(rt, "the built output shares memory with the previous one:\n was %x\n now %x", before, kit.EncOutput(prev))
			}
		}
		if !bytes.Equal(base, x) {
			c.NonTrivial(k, prev != nil, strings.Join(names, " "))
		}
		for _, n := range names {
			c.Label(n)
		}
		c.Sample("%T from previous %v: %v", got, prev != nil, names)
	})
}

func sameKeys(a, b iotago.BlockIssuerKeys) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || hash(a[i]) != hash(b[i]) {
			return false
		}
	}
	return true
}
