package t_syn

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func amountOf(o iotago.Output) *iotago.BaseToken {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return &o.Amount
	case *iotago.AccountOutput:
		return &o.Amount
	case *iotago.AnchorOutput:
		return &o.Amount
	case *iotago.FoundryOutput:
		return &o.Amount
	case *iotago.NFTOutput:
		return &o.Amount
	}
	return &o.(*iotago.DelegationOutput).Amount
}

func manaOf(o iotago.Output) *iotago.Mana {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return &o.Mana
	case *iotago.AccountOutput:
		return &o.Mana
	case *iotago.AnchorOutput:
		return &o.Mana
	case *iotago.NFTOutput:
		return &o.Mana
	}
	return nil
}

// sizedMeta draws metadata entries of an exact total encoded size (>= 12).
func sizedMeta(size int) map[string][]byte {
	a := (size - 8) / 2
	return map[string][]byte{"a": kit.Expand(1, a), "b": kit.Expand(2, size-1-2*4-a)}
}

func outputEdits(g *kit.G, o iotago.Output) (e edits) {
	s := g.E.Spec
	amt := amountOf(o)
	ucs, fs, ims := kit.Parts(o)
	clamp := func(b *big.Int) iotago.BaseToken {
		if b.Sign() < 0 {
			return 0
		}
		return iotago.BaseToken(b.Uint64())
	}
	e.add("amount", func() {
		md := kit.RefMinDeposit(s, o)
		switch g.Int(0, 5, "ea") {
		case 0:
			*amt = 0
		case 1:
			*amt = clamp(new(big.Int).Sub(md, big.NewInt(1)))
		case 2:
			*amt = clamp(md)
		case 3:
			*amt = iotago.BaseToken(s.Supply)
		case 4:
			*amt = iotago.BaseToken(s.Supply + 1)
		default:
			*amt = iotago.BaseToken(g.U64("eav"))
		}
	})
	if m := manaOf(o); m != nil {
		e.add("mana", func() {
			mx := s.MaxMana().Uint64()
			*m = []iotago.Mana{0, iotago.Mana(mx), iotago.Mana(mx + 1), iotago.Mana(g.U64("emv"))}[g.Int(0, 3, "em")]
		})
	}
	_, del := o.(*iotago.DelegationOutput)
	// the lists of unlock conditions and features
	lst := func(name string, n int, apply func(f func(i, j int) string)) {
		if n > 0 {
			e.add(name+" removed", func() { apply(func(i, _ int) string { return "rm" }) })
			e.add(name+" repeated", func() { apply(func(i, _ int) string { return "dup" }) })
		}
		if n > 1 {
			e.add(name+" swapped", func() { apply(func(i, _ int) string { return "swap" }) })
		}
		e.add(name+" added", func() { apply(func(i, _ int) string { return "add" }) })
	}
	lst("unlock condition", len(ucs), func(f func(int, int) string) {
		r := alter(g, ucs, f(0, 0), func() iotago.UnlockCondition { return anyUC(g) })
		setParts(o, r, fs, ims)
	})
	if !del {
		lst("feature", len(fs), func(f func(int, int) string) {
			setParts(o, ucs, alter(g, fs, f(0, 0), func() iotago.Feature { return anyFeat(g) }), ims)
		})
		if _, basic := o.(*iotago.BasicOutput); !basic {
			lst("immutable feature", len(ims), func(f func(int, int) string) {
				setParts(o, ucs, fs, alter(g, ims, f(0, 0), func() iotago.Feature { return anyFeat(g) }))
			})
		}
	}
	for _, u := range ucs {
		addr := func(p *iotago.Address) {
			e.add(fmt.Sprintf("address of %T", u), func() {
				switch g.Int(0, 3, "eua") {
				case 0:
					*p = kit.Keys()[g.Int(0, 3, "imp")].Imp
				case 1:
					if a := selfAddr(o); a != nil {
						*p = a
					}
				case 2:
					*p = badMulti(g)
				default:
					*p = badRestricted(g)
				}
			})
			if r, ok := (*p).(*iotago.RestrictedAddress); ok {
				e.add("restricted capability bit", func() {
					var m uint16
					for i, b := range r.AllowedCapabilities {
						m |= uint16(b) << (8 * i)
					}
					r.AllowedCapabilities = kit.CapsMask(m ^ 1<<g.Int(0, 8, "cbit"))
				})
				e.add("restricted mask length", func() {
					r.AllowedCapabilities = append(append(iotago.AddressCapabilitiesBitMask{}, r.AllowedCapabilities...), byte(g.Int(0, 1, "pad")))
				})
			} else if !isImp(*p) {
				e.add("owner becomes restricted", func() {
					*p = &iotago.RestrictedAddress{Address: *p, AllowedCapabilities: kit.CapsMask(uint16(g.Int(0, 511, "caps")))}
				})
			}
			if m, ok := (*p).(*iotago.MultiAddress); ok {
				e.add("multi address", func() { breakMulti(g, m) })
			}
		}
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			addr(&u.Address)
		case *iotago.StorageDepositReturnUnlockCondition:
			addr(&u.ReturnAddress)
			e.add("return amount", func() {
				mr := kit.RefMinReturn(s, u.ReturnAddress)
				u.Amount = []iotago.BaseToken{0, clamp(new(big.Int).Sub(mr, big.NewInt(1))), clamp(mr), *amt, *amt + 1, iotago.BaseToken(g.U64("erv"))}[g.Int(0, 5, "er")]
			})
		case *iotago.TimelockUnlockCondition:
			e.add("timelock slot", func() { u.Slot = iotago.SlotIndex(g.Int(0, 1, "ts")) })
		case *iotago.ExpirationUnlockCondition:
			addr(&u.ReturnAddress)
			e.add("expiration slot", func() { u.Slot = iotago.SlotIndex(g.Int(0, 1, "ts")) })
			e.add("expiration to the owner", func() {
				if a, ok := ucs[0].(*iotago.AddressUnlockCondition); ok {
					u.ReturnAddress = a.Address
				}
			})
		case *iotago.StateControllerAddressUnlockCondition:
			addr(&u.Address)
		case *iotago.GovernorAddressUnlockCondition:
			addr(&u.Address)
		}
	}
	meta := func(name string, set func(map[string][]byte)) {
		e.add(name, func() {
			switch g.Int(0, 7, "md") {
			case 0:
				set(map[string][]byte{})
			case 1:
				set(sizedMeta(8192))
			case 2:
				set(sizedMeta(8193))
			case 3:
				set(map[string][]byte{string([]byte{byte(g.Int(0, 255, "mk"))}): {1}})
			case 4:
				set(map[string][]byte{strings.Repeat("k", g.Int(254, 256, "mkl")): {}})
			case 5:
				m := map[string][]byte{}
				for i, n := 0, g.Int(255, 256, "mkn"); i < n; i++ {
					m[fmt.Sprintf("k%d", i)] = nil
				}
				set(m)
			case 6:
				set(map[string][]byte{"": {1, 2}})
			default:
				set(sizedMeta(g.Int(8100, 9000, "ms")))
			}
		})
	}
	for i, f := range append(append([]iotago.Feature{}, fs...), ims...) {
		where := "mutable"
		if i >= len(fs) {
			where = "immutable"
		}
		switch f := f.(type) {
		case *iotago.MetadataFeature:
			meta(where+" metadata", func(m map[string][]byte) {
				f.Entries = iotago.MetadataFeatureEntries{}
				for k, v := range m {
					f.Entries[iotago.MetadataFeatureEntriesKey(k)] = v
				}
			})
		case *iotago.StateMetadataFeature:
			meta("state metadata", func(m map[string][]byte) {
				f.Entries = iotago.StateMetadataFeatureEntries{}
				for k, v := range m {
					f.Entries[iotago.StateMetadataFeatureEntriesKey(k)] = v
				}
			})
		case *iotago.TagFeature:
			e.add("tag length", func() { f.Tag = kit.Expand(3, []int{0, 1, 64, 65}[g.Int(0, 3, "tl")]) })
		case *iotago.NativeTokenFeature:
			e.add("native token amount", func() { f.Amount = big.NewInt(int64(g.Int(0, 1, "nta"))) })
			e.add("native token ID", func() { f.ID[g.Int(0, 37, "nti")] ^= 1 })
		case *iotago.BlockIssuerFeature:
			e.add("issuer keys", func() {
				n := []int{0, 1, 2, 127, 128, 129}[g.Int(0, 5, "bk")]
				f.BlockIssuerKeys = nil
				for i := 0; i < n; i++ {
					k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
					k.PublicKeyHash[0] = byte(i)
					f.BlockIssuerKeys = append(f.BlockIssuerKeys, k)
				}
			})
			if n := len(f.BlockIssuerKeys); n > 0 {
				e.add("issuer key repeated or swapped", func() {
					f.BlockIssuerKeys = alter(g, f.BlockIssuerKeys, []string{"dup", "swap"}[g.Int(0, 1, "bks")], nil)
				})
			}
			e.add("expiry slot", func() { f.ExpirySlot = iotago.SlotIndex(g.U32("exs")) })
		case *iotago.StakingFeature:
			e.add("staked amount", func() {
				f.StakedAmount = []iotago.BaseToken{0, *amt, *amt + 1, iotago.BaseToken(g.U64("sav"))}[g.Int(0, 3, "sa")]
			})
			e.add("staking epochs", func() {
				f.StartEpoch, f.EndEpoch = iotago.EpochIndex(g.U32("se")), iotago.EpochIndex(g.U32("ee"))
			})
		}
	}
	switch o := o.(type) {
	case *iotago.AccountOutput:
		e.add("account ID and counter", func() {
			if g.Bool("zid") {
				o.AccountID = iotago.AccountID{}
			}
			o.FoundryCounter = uint32(g.Int(0, 1, "fc"))
		})
	case *iotago.AnchorOutput:
		e.add("anchor ID and index", func() {
			if g.Bool("zid") {
				o.AnchorID = iotago.AnchorID{}
			}
			o.StateIndex = uint32(g.Int(0, 1, "si"))
		})
	case *iotago.NFTOutput:
		e.add("NFT ID", func() { o.NFTID = iotago.NFTID{} })
	case *iotago.FoundryOutput:
		ts := o.TokenScheme.(*iotago.SimpleTokenScheme)
		e.add("token scheme", func() {
			one := big.NewInt(1)
			switch g.Int(0, 8, "tse") {
			case 8: // exactly everything minted and melted
				ts.MintedTokens = new(big.Int).Add(ts.MaximumSupply, one)
				ts.MeltedTokens = big.NewInt(1)
				if ts.MintedTokens.BitLen() > 256 {
					ts.MintedTokens.Set(ts.MaximumSupply)
				}
			case 0:
				ts.MaximumSupply = new(big.Int)
			case 1:
				ts.MintedTokens = new(big.Int).Set(ts.MaximumSupply)
				ts.MeltedTokens = new(big.Int)
			case 2:
				ts.MintedTokens = cap256(new(big.Int).Add(ts.MaximumSupply, one))
				ts.MeltedTokens = new(big.Int)
			case 3:
				ts.MeltedTokens = new(big.Int).Set(ts.MintedTokens)
			case 4:
				ts.MeltedTokens = cap256(new(big.Int).Add(ts.MintedTokens, one))
			case 5: // circulating supply exactly the maximum although more was minted
				m := new(big.Int).Rsh(ts.MaximumSupply, 1)
				ts.MeltedTokens = new(big.Int).Set(m)
				ts.MintedTokens = cap256(new(big.Int).Add(ts.MaximumSupply, m))
			case 6:
				m := new(big.Int).Rsh(ts.MaximumSupply, 1)
				ts.MeltedTokens = new(big.Int).Set(m)
				ts.MintedTokens = cap256(new(big.Int).Add(new(big.Int).Add(ts.MaximumSupply, m), one))
			default:
				ts.MintedTokens, ts.MeltedTokens, ts.MaximumSupply = g.U256("t1"), g.U256("t2"), g.U256("t3")
			}
		})
		e.add("native token of the foundry", func() {
			id := kit.RefFoundryID(o)
			if g.Bool("ntother") {
				id[g.Int(0, 37, "nti")] ^= 1
			}
			setParts(o, ucs, withNT(fs, &iotago.NativeTokenFeature{ID: id, Amount: big.NewInt(1)}), ims)
		})
		e.add("serial number", func() { o.SerialNumber = g.U32("ser") })
	case *iotago.DelegationOutput:
		e.add("validator", func() {
			a := iotago.AccountAddress{}
			if g.Bool("one") {
				a[31] = 1
			}
			o.ValidatorAddress = &a
		})
		e.add("delegation figures", func() {
			o.DelegatedAmount = iotago.BaseToken(g.U64("da"))
			o.StartEpoch, o.EndEpoch = iotago.EpochIndex(g.U32("se")), iotago.EpochIndex(g.U32("ee"))
		})
	}
	return
}

func cap256(b *big.Int) *big.Int {
	if b.BitLen() > 256 {
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	}
	return b
}

func withNT(fs []iotago.Feature, nt iotago.Feature) (r []iotago.Feature) {
	for _, f := range fs {
		if _, ok := f.(*iotago.NativeTokenFeature); !ok {
			r = append(r, f)
		}
	}
	return append(r, nt)
}

func isImp(a iotago.Address) bool {
	_, ok := a.(*iotago.ImplicitAccountCreationAddress)
	return ok
}

func alter[T any](g *kit.G, xs []T, how string, mk func() T) []T {
	r := append([]T{}, xs...)
	switch how {
	case "rm":
		i := g.Int(0, len(r)-1, "al")
		return append(r[:i], r[i+1:]...)
	case "dup":
		i := g.Int(0, len(r)-1, "al")
		return append(r[:i:i], append([]T{r[i]}, r[i:]...)...)
	case "swap":
		if len(r) < 2 {
			return r
		}
		i := g.Int(0, len(r)-2, "al")
		r[i], r[i+1] = r[i+1], r[i]
		return r
	}
	i := g.Int(0, len(r), "al")
	return append(r[:i:i], append([]T{mk()}, r[i:]...)...)
}

// setParts is kit.SetParts limited to parts the Go type system admits (others are skipped).
func setParts(o iotago.Output, u []iotago.UnlockCondition, f, im []iotago.Feature) {
	if p := kit.Panics(func() { kit.SetParts(o, u, f, im) }); p != nil {
		panic(p)
	}
}

func anyUC(g *kit.G) iotago.UnlockCondition {
	switch g.Int(0, 6, "anyuc") {
	case 0:
		return &iotago.AddressUnlockCondition{Address: g.Addr(kit.KNoImp, "ua")}
	case 1:
		return g.SDR("us")
	case 2:
		return g.TL("ut")
	case 3:
		return g.EX("ue")
	case 4:
		return &iotago.StateControllerAddressUnlockCondition{Address: g.Addr(kit.KNoImp, "ua")}
	case 5:
		return &iotago.GovernorAddressUnlockCondition{Address: g.Addr(kit.KNoImp, "ua")}
	}
	a := iotago.AccountAddress(g.B32("ua"))
	return &iotago.ImmutableAccountUnlockCondition{Address: &a}
}

func anyFeat(g *kit.G) iotago.Feature {
	switch g.Int(0, 7, "anyf") {
	case 0:
		return g.SenderFeat("fa")
	case 1:
		return g.IssuerFeat("fa")
	case 2:
		return g.MetaFeat("fm")
	case 3:
		return g.StateMetaFeat("fm")
	case 4:
		return g.TagFeat("ft")
	case 5:
		return g.NTFeat("fn")
	case 6:
		return g.BIFeat("fb")
	}
	return g.StakeFeat("fs")
}

// selfAddr is the address of the chain the output carries.
func selfAddr(o iotago.Output) iotago.Address {
	switch o := o.(type) {
	case *iotago.AccountOutput:
		a := iotago.AccountAddress(o.AccountID)
		return &a
	case *iotago.AnchorOutput:
		a := iotago.AnchorAddress(o.AnchorID)
		return &a
	case *iotago.NFTOutput:
		a := iotago.NFTAddress(o.NFTID)
		return &a
	}
	return nil
}

func badMulti(g *kit.G) iotago.Address {
	m := g.Multi("bm")
	breakMulti(g, m)
	return m
}

func breakMulti(g *kit.G, m *iotago.MultiAddress) {
	sum := uint16(0)
	for _, a := range m.Addresses {
		sum += uint16(a.Weight)
	}
	switch g.Int(0, 6, "bm") {
	case 0:
		m.Threshold = 0
	case 1:
		m.Threshold = sum
	case 2:
		m.Threshold = sum + 1
	case 3:
		m.Addresses[g.Int(0, len(m.Addresses)-1, "mi")].Weight = 0
	case 4:
		m.Addresses = alter(g, m.Addresses, []string{"rm", "dup", "swap"}[g.Int(0, 2, "mh")], nil)
	case 5:
		n := g.Int(9, 11, "mn")
		m.Addresses = nil
		for i := 0; i < n; i++ {
			a := iotago.Ed25519Address{byte(i)}
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: &a, Weight: 1})
		}
		m.Threshold = 1
	default:
		m.Addresses[g.Int(0, len(m.Addresses)-1, "mi")].Address = kit.Keys()[0].Imp
	}
}

func badRestricted(g *kit.G) iotago.Address {
	r := &iotago.RestrictedAddress{Address: g.Addr(kit.KPlain|kit.KMulti, "bra"), AllowedCapabilities: kit.CapsMask(0x1ff)}
	switch g.Int(0, 3, "br") {
	case 0:
		r.AllowedCapabilities = append(r.AllowedCapabilities, 1)
	case 1:
		r.AllowedCapabilities = kit.CapsMask(uint16(g.Int(0, 511, "brc")))
	case 2:
		r.Address = kit.Keys()[1].Imp
	}
	return r
}

// wrappedSelf: the output's own chain address hidden in a multi or restricted address; no rule is stated for it.
func skip(o iotago.Output) bool { return kit.FreshSelfOwned(o) }

func TestC08(t *testing.T) {
	kit.Check(t, 30000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		o := g.Output(kit.OKind(g.Int(0, 5, "ok")), "o")
		var names []string
		for i, n := 0, g.Int(0, 2, "edits"); i < n; i++ {
			ed := outputEdits(g, o)
			if p := kit.Panics(func() { names = append(names, ed.pick(g)) }); p != nil {
				if strings.Contains(fmt.Sprint(p), "interface conversion") || strings.Contains(fmt.Sprint(p), "missing method") {
					continue // the Go type of the output does not admit the part
				}
				panic(p)
			}
		}
		if skip(o) {
			return
		}
		// usually keep the amount above the deposit of the grown output, so that the edit decides
		if amt := amountOf(o); g.Int(0, 3, "refund") > 0 && !strings.Contains(strings.Join(names, ","), "amount") {
			if md := kit.RefMinDeposit(g.E.Spec, o).Uint64(); uint64(*amt) < md {
				*amt = iotago.BaseToken(md)
			}
		}
		tx := minimalTx(g, o)
		errs := kit.SignedTxErrs(g.E.Spec, tx)
		enc := kit.EncSignedTx(tx)
		kind := strings.TrimPrefix(fmt.Sprintf("%T", o), "*iotago.")
		verdicts(rt, g.E, tx, &iotago.SignedTransaction{API: g.E.API()}, enc, errs, fmt.Sprintf("%s on %s after %q", kind, g.E.Name, names))
		for _, e := range errs {
			c.Label("broken: " + e)
		}
		if len(errs) == 0 {
			c.Label("accepted " + kind)
		}
		if len(names) > 0 {
			c.NonTrivial(enc)
		}
		c.Sample("%s after %q breaks %q", kind, names, errs)
	})
}

// C08: validators are run over all outputs of a transaction; a rule is decided for each output whatever the others are.
func TestC08_Lists(t *testing.T) {
	kit.Check(t, 9000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		var outs iotago.TxEssenceOutputs
		var names []string
		n := g.Int(2, 5, "outputs")
		victim := g.Int(0, n-1, "victim")
		for i := 0; i < n; i++ {
			o := g.Output(kit.OKind(g.Int(0, 5, "ok")), fmt.Sprint("o", i))
			if i == victim && g.Bool("edit") {
				ed := outputEdits(g, o)
				if p := kit.Panics(func() { names = append(names, fmt.Sprint(i, ed.pick(g))) }); p != nil {
					if !strings.Contains(fmt.Sprint(p), "interface conversion") && !strings.Contains(fmt.Sprint(p), "missing method") {
						panic(p)
					}
				}
			}
			if skip(o) {
				return
			}
			outs = append(outs, o)
		}
		// amounts near their deposits, with some shares of the supply among them
		total := new(big.Int)
		supply := new(big.Int).SetUint64(g.E.Spec.Supply)
		for i, o := range outs {
			amt := amountOf(o)
			if strings.Contains(strings.Join(names, ","), "amount") && i == victim {
				total.Add(total, new(big.Int).SetUint64(uint64(*amt)))
				continue
			}
			switch g.Int(0, 5, "amt") {
			case 0:
				left := new(big.Int).Sub(supply, total)
				if left.Sign() > 0 && left.IsUint64() {
					*amt = iotago.BaseToken(left.Uint64())
					if g.Rare(3, "over") {
						*amt++
					}
				}
			case 1:
				*amt = iotago.BaseToken(g.E.Spec.Supply / 4)
			default:
				if md := kit.RefMinDeposit(g.E.Spec, o).Uint64(); md > uint64(*amt) || g.Bool("least") {
					*amt = iotago.BaseToken(md)
				}
			}
			// deposits to return of up to the amount, just above it, or above it by what other outputs hold
			ucs, _, _ := kit.Parts(o)
			for _, u := range ucs {
				if sd, ok := u.(*iotago.StorageDepositReturnUnlockCondition); ok && i != victim {
					least := kit.RefMinReturn(g.E.Spec, sd.ReturnAddress)
					switch r := g.Int(0, 4, "return"); {
					case r == 0 && total.IsUint64():
						sd.Amount = *amt + iotago.BaseToken(total.Uint64())
					case r == 1:
						sd.Amount = *amt + 1
					case r == 2:
						sd.Amount = *amt
					default:
						sd.Amount = iotago.BaseToken(least.Uint64())
						if *amt < sd.Amount {
							*amt = sd.Amount
						}
					}
					names = append(names, fmt.Sprintf("%d: return %d of %d", i, sd.Amount, *amt))
				}
			}
			total.Add(total, new(big.Int).SetUint64(uint64(*amt)))
		}
		tx := minimalTx(g, outs[0])
		tx.Transaction.Outputs = outs
		errs := kit.SignedTxErrs(g.E.Spec, tx)
		enc := kit.EncSignedTx(tx)
		verdicts(rt, g.E, tx, &iotago.SignedTransaction{API: g.E.API()}, enc, errs, fmt.Sprintf("%d outputs on %s after %q", n, g.E.Name, names))
		for _, e := range errs {
			c.Label("broken: " + e)
		}
		if len(errs) == 0 {
			c.Label("accepted list")
		}
		c.NonTrivial(enc)
		c.Sample("%d outputs after %q breaks %q", n, names, errs)
	})
}

// the rules each validator is for; a rule named in unless makes its verdict unspecified
var aloneRules = []struct {
	name   string
	fn     func(p iotago.ProtocolParameters, s *iotago.StorageScoreStructure, max iotago.Mana, commitment bool) iotago.ElementValidationFunc[iotago.Output]
	rules  []string
	unless []string
}{
	{"condition order", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalUnlockConditionLexicalOrderAndUniqueness()
	}, []string{"unlock condition not sorted and unique"}, nil},
	{"feature order", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalFeaturesLexicalOrderAndUniqueness()
	}, []string{"feature not sorted and unique", "immutable feature not sorted and unique"}, nil},
	{"metadata size", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalMetadataFeatureMaxSize()
	}, []string{"metadata larger than 8192", "state metadata larger than 8192"}, []string{"metadata entry", "state metadata entry", "metadata key", "state metadata key"}},
	{"deposit", func(p iotago.ProtocolParameters, s *iotago.StorageScoreStructure, _ iotago.Mana, _ bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalDepositAmount(p, s)
	}, []string{"amount zero", "below minimum storage deposit", "amounts above token supply", "storage deposit return below minimum", "storage deposit return above amount"}, []string{"multi address", "restricted address"}},
	{"timelock and expiration", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalExpirationAndTimelock()
	}, []string{"timelock slot zero", "expiration slot zero"}, nil},
	{"native tokens", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalNativeTokens()
	}, []string{"native token amount zero"}, nil},
	{"stored mana", func(_ iotago.ProtocolParameters, _ *iotago.StorageScoreStructure, m iotago.Mana, _ bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalStoredMana(m)
	}, []string{"stored mana above maximum"}, nil},
	{"chain uniqueness", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalChainConstrainedOutputUniqueness()
	}, []string{"chain identifier repeated on outputs"}, nil},
	{"foundry", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalFoundry()
	}, []string{"maximum supply zero", "melted more than minted", "circulating supply above maximum", "foundry holds foreign native tokens"}, nil},
	{"account", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalAccount()
	}, []string{"new account with foundries", "account owned by itself", "staked amount above amount", "staking without block issuer feature"}, nil},
	{"anchor", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalAnchor()
	}, []string{"new anchor with state index", "anchor controlled by itself"}, nil},
	{"NFT", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalNFT()
	}, []string{"NFT owned by itself"}, nil},
	{"delegation", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalDelegation()
	}, []string{"empty validator"}, nil},
	{"address restrictions", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalAddressRestrictions()
	}, []string{"address restriction", "implicit account creation address restriction"}, nil},
	{"implicit accounts", func(iotago.ProtocolParameters, *iotago.StorageScoreStructure, iotago.Mana, bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalImplicitAccountCreationAddress()
	}, []string{"implicit account creation address outside a basic output", "implicit account creation address as state controller", "implicit account creation address as governor"}, nil},
	{"commitment", func(_ iotago.ProtocolParameters, _ *iotago.StorageScoreStructure, _ iotago.Mana, c bool) iotago.ElementValidationFunc[iotago.Output] {
		return iotago.OutputsSyntacticalCommitmentInput(c)
	}, []string{"commitment input missing for output"}, nil},
}

// C08: each output rule decides by itself, whatever other rules the outputs break.
func TestC08_Alone(t *testing.T) {
	kit.Check(t, 20000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		var outs iotago.TxEssenceOutputs
		var names []string
		for i, n := 0, g.Int(1, 4, "outputs"); i < n; i++ {
			o := g.Output(kit.OKind(g.Int(0, 5, "ok")), fmt.Sprint("o", i))
			if i > 0 && g.Rare(6, "same chain") {
				if p := outs[g.Int(0, i-1, "as")]; fmt.Sprintf("%T", p) == fmt.Sprintf("%T", o) {
					copyChainID(p, o)
				}
			}
			for j, m := 0, g.Int(0, 3, "edits"); j < m; j++ {
				ed := outputEdits(g, o)
				if p := kit.Panics(func() { names = append(names, fmt.Sprint(i, ed.pick(g))) }); p != nil {
					if !strings.Contains(fmt.Sprint(p), "interface conversion") && !strings.Contains(fmt.Sprint(p), "missing method") {
						panic(p)
					}
				}
			}
			if skip(o) {
				return
			}
			outs = append(outs, o)
		}
		commitment := g.Bool("commitment")
		errs := kit.OutputsErrs(g.E.Spec, outs, commitment)
		broken := func(rules []string, prefix bool) bool {
			for _, e := range errs {
				for _, r := range rules {
					if e == r || prefix && strings.HasPrefix(e, r) {
						return true
					}
				}
			}
			return false
		}
		order := broken([]string{"unlock condition not sorted and unique", "feature not sorted and unique", "immutable feature not sorted and unique"}, false)
		for _, e := range errs {
			if strings.HasSuffix(e, "does not permit") || strings.HasSuffix(e, " missing") {
				c.Label("out of shape")
				return
			}
		}
		n := 0
		for _, r := range aloneRules {
			if broken(r.unless, true) || order && !strings.HasSuffix(r.name, "order") {
				continue
			}
			fn := r.fn(g.E.API().ProtocolParameters(), g.E.API().StorageScoreStructure(), iotago.Mana(g.E.Spec.MaxMana().Uint64()), commitment)
			var err error
			if p := kit.Panics(func() { err = iotago.SyntacticallyValidateOutputs(outs, fn) }); p != nil {
				kit.Fail(rt, "the %s rule panics: %v on %d outputs after %q", r.name, p, len(outs), names)
			}
			if want := broken(r.rules, false); want != (err != nil) {
				kit.Fail(rt, "the %s rule by itself says %v, broken are %q, outputs after %q: %x", r.name, err, errs, names, kit.EncTx(&iotago.Transaction{TransactionEssence: minimalTx(g, outs[0]).Transaction.TransactionEssence, Outputs: outs}))
			} else if want {
				c.Label("broken: " + r.name)
				n++
			}
		}
		if n > 1 {
			c.Label("several rules broken")
		}
		c.NonTrivial(fmt.Sprint(names), fmt.Sprint(errs))
		c.Sample("%d outputs after %q break %q", len(outs), names, errs)
	})
}
