package t_misc

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"slices"
	"testing"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// ord46 is a list of elements of one kind with the key their order follows.
type ord46 struct {
	kind string
	xs   []any
	rank func(any) []byte
	enc  func(any) []byte
	cmp  func(a, b any) int
	// sort sorts a list in place (nil: the kind has no sorting of its own)
	sort func(xs []any)
	// unique accepts exactly strictly increasing lists
	unique func(xs []any) error
	// wire accepts exactly strictly increasing lists, through the codec (nil: the order of the kind is not checked alone there)
	wire func(xs []any) error
}

// near46 draws 32-byte values that share much of their content.
func near46(g *kit.G, bases [][32]byte, l string) [32]byte {
	b := bases[g.Int(0, len(bases)-1, l+".base")]
	switch g.Int(0, 4, l+".how") {
	case 0:
	case 1:
		b[31] ^= 1 << g.Int(0, 7, l+".bit")
	case 2:
		b[0] ^= 0x80
	default:
		b[g.Int(0, 31, l+".at")] = byte(g.Int(0, 255, l+".v"))
	}
	return b
}

func typed46[T any](xs []any) []T {
	r := make([]T, len(xs))
	for i := range xs {
		r[i] = xs[i].(T)
	}
	return r
}

func back46[T any](xs []any, ys []T) {
	for i := range xs {
		xs[i] = ys[i]
	}
}

func ordOf46[T interface{ Compare(T) int }](o ord46) ord46 {
	o.cmp = func(a, b any) int { return a.(T).Compare(b.(T)) }
	o.unique = func(xs []any) error {
		return iotago.SliceValidator(typed46[T](xs), iotago.LexicalOrderAndUniquenessValidator[T]())
	}
	return o
}

// iface46 draws the elements of the lists whose order follows from their type alone.
func iface46[T any](g *kit.G, n int, draw func(l string) T) (xs []any) {
	for i := 0; i < n; i++ {
		xs = append(xs, draw(fmt.Sprint("e", i)))
	}
	return xs
}

func order46(g *kit.G) ord46 {
	n := g.Int(0, 7, "n")
	bases := [][32]byte{g.B32("b0"), g.B32("b1")}
	id := func(i int) [32]byte { return near46(g, bases, fmt.Sprint("id", i)) }
	var xs []any
	validate := func(x any) error {
		_, err := g.E.API().Encode(x, serix.WithValidation())
		return err
	}
	switch g.Int(0, 7, "kind") {
	case 0:
		for i := 0; i < n; i++ {
			xs = append(xs, &iotago.Allotment{AccountID: id(i), Mana: iotago.Mana(g.U64("mana"))})
		}
		return ordOf46[*iotago.Allotment](ord46{kind: "allotment", xs: xs,
			rank: func(x any) []byte { a := x.(*iotago.Allotment).AccountID; return bytes.Clone(a[:]) },
			enc: func(x any) []byte {
				a := x.(*iotago.Allotment)
				return binary.LittleEndian.AppendUint64(bytes.Clone(a.AccountID[:]), uint64(a.Mana))
			},
			sort: func(xs []any) { l := iotago.Allotments(typed46[*iotago.Allotment](xs)); l.Sort(); back46(xs, l) }})
	case 1:
		for i := 0; i < n; i++ {
			switch g.Int(0, 4, "ctx") {
			case 0:
				xs = append(xs, iotago.ContextInput(&iotago.CommitmentInput{CommitmentID: g.CommitmentID("c")}))
			case 1, 2:
				xs = append(xs, iotago.ContextInput(&iotago.BlockIssuanceCreditInput{AccountID: id(i)}))
			default:
				xs = append(xs, iotago.ContextInput(&iotago.RewardInput{Index: uint16(g.Int(0, 300, "ri"))}))
			}
		}
		return ordOf46[iotago.ContextInput](ord46{kind: "context input", xs: xs,
			rank: func(x any) []byte {
				switch x := x.(type) {
				case *iotago.BlockIssuanceCreditInput:
					return append([]byte{1}, x.AccountID[:]...)
				case *iotago.RewardInput:
					return binary.BigEndian.AppendUint16([]byte{2}, x.Index)
				}
				return []byte{0} // there is one commitment only
			},
			enc: func(x any) []byte { return kit.EncCtxInput(x.(iotago.ContextInput)) },
			sort: func(xs []any) {
				l := iotago.ContextInputs[iotago.ContextInput](typed46[iotago.ContextInput](xs))
				l.Sort()
				back46(xs, l)
			}})
	case 2:
		for i := 0; i < n; i++ {
			b := id(i)
			var a iotago.Address
			switch g.Int(0, 4, "ak") {
			case 0, 1:
				x := iotago.Ed25519Address(b)
				a = &x
			case 2:
				x := iotago.AccountAddress(b)
				a = &x
			case 3:
				x := iotago.NFTAddress(b)
				a = &x
			default:
				x := iotago.AnchorAddress(b)
				a = &x
			}
			xs = append(xs, &iotago.AddressWithWeight{Address: a, Weight: byte(g.Int(1, 255, "w"))})
		}
		return ordOf46[*iotago.AddressWithWeight](ord46{kind: "weighted address", xs: xs,
			rank: func(x any) []byte { return []byte(kit.RefAddrID(x.(*iotago.AddressWithWeight).Address)) },
			enc: func(x any) []byte {
				a := x.(*iotago.AddressWithWeight)
				return append(kit.EncAddr(a.Address), a.Weight)
			},
			sort: func(xs []any) {
				l := iotago.AddressesWithWeight(typed46[*iotago.AddressWithWeight](xs))
				l.Sort()
				back46(xs, l)
			},
			wire: func(xs []any) error {
				if len(xs) < 2 {
					return nil
				}
				m := iotago.NewMultiAddress(typed46[*iotago.AddressWithWeight](xs), 1)
				_, err := iotago.CommonSerixAPI().Encode(context.Background(), m, serix.WithValidation())
				return err
			}})
	case 3:
		for i := 0; i < n; i++ {
			xs = append(xs, iotago.BlockIssuerKey(&iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: id(i)}))
		}
		return ordOf46[iotago.BlockIssuerKey](ord46{kind: "block issuer key", xs: xs,
			rank: func(x any) []byte {
				h := x.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
				return append([]byte{0}, h[:]...)
			},
			enc: func(x any) []byte {
				h := x.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
				return append([]byte{0}, h[:]...)
			},
			sort: func(xs []any) {
				l := iotago.BlockIssuerKeys(typed46[iotago.BlockIssuerKey](xs))
				l.Sort()
				back46(xs, l)
			},
			wire: func(xs []any) error {
				if len(xs) == 0 {
					return nil
				}
				return validate(&iotago.BlockIssuerFeature{BlockIssuerKeys: typed46[iotago.BlockIssuerKey](xs), ExpirySlot: 7})
			}})
	case 4:
		xs = iface46(g, n, func(l string) iotago.Feature {
			switch g.Int(0, 7, l) {
			case 0:
				return g.SenderFeat(l)
			case 1:
				return g.IssuerFeat(l)
			case 2:
				return g.MetaFeat(l)
			case 3:
				return g.StateMetaFeat(l)
			case 4:
				return g.TagFeat(l)
			case 5:
				return g.NTFeat(l)
			case 6:
				return g.BIFeat(l)
			}
			return g.StakeFeat(l)
		})
		return ordOf46[iotago.Feature](ord46{kind: "feature", xs: xs,
			rank: func(x any) []byte { return kit.EncFeat(x.(iotago.Feature))[:1] },
			enc:  func(x any) []byte { return kit.EncFeat(x.(iotago.Feature)) },
			sort: func(xs []any) {
				l := iotago.Features[iotago.Feature](typed46[iotago.Feature](xs))
				l.Sort()
				back46(xs, l)
			}})
	case 5:
		xs = iface46(g, n, func(l string) iotago.UnlockCondition {
			switch g.Int(0, 6, l) {
			case 0:
				return &iotago.AddressUnlockCondition{Address: g.Addr(kit.KAll, l)}
			case 1:
				return g.SDR(l)
			case 2:
				return g.TL(l)
			case 3:
				return g.EX(l)
			case 4:
				return &iotago.StateControllerAddressUnlockCondition{Address: g.Addr(kit.KAll, l)}
			case 5:
				return &iotago.GovernorAddressUnlockCondition{Address: g.Addr(kit.KAll, l)}
			}
			x := iotago.AccountAddress(g.B32(l))
			return &iotago.ImmutableAccountUnlockCondition{Address: &x}
		})
		return ordOf46[iotago.UnlockCondition](ord46{kind: "unlock condition", xs: xs,
			rank: func(x any) []byte { return kit.EncUC(x.(iotago.UnlockCondition))[:1] },
			enc:  func(x any) []byte { return kit.EncUC(x.(iotago.UnlockCondition)) },
			sort: func(xs []any) {
				l := iotago.UnlockConditions[iotago.UnlockCondition](typed46[iotago.UnlockCondition](xs))
				l.Sort()
				back46(xs, l)
			}})
	case 6:
		t0 := time.Unix(0, int64(g.U64Max(1<<62, "t0")))
		slot := g.U32("slot")
		for i := 0; i < n; i++ {
			if g.Rare(6, "nil") {
				xs = append(xs, (*iotago.Attestation)(nil))
				continue
			}
			a := kit.Attest(g.E, g.BlockWith(g.Int(0, 1, "body")))
			if g.Bool("sameSlot") {
				binary.LittleEndian.PutUint32(a.Header.SlotCommitmentID[32:], slot+uint32(g.Int(0, 1, "ds")))
				if g.Bool("sameTime") {
					a.Header.IssuingTime = t0.Add(time.Duration(g.Int(0, 1, "dt")))
					if g.Bool("elsewhere") {
						a.Header.IssuingTime = a.Header.IssuingTime.In(time.FixedZone("x", 3600*g.Int(-12, 12, "zone")))
					}
				}
				a.BodyHash = id(i)
			}
			xs = append(xs, a)
		}
		return ordOf46[*iotago.Attestation](ord46{kind: "attestation", xs: xs,
			rank: func(x any) []byte {
				a := x.(*iotago.Attestation)
				if a == nil {
					return nil
				}
				r := binary.BigEndian.AppendUint32([]byte{1}, binary.LittleEndian.Uint32(a.Header.SlotCommitmentID[32:]))
				r = binary.BigEndian.AppendUint64(r, uint64(a.Header.IssuingTime.Unix())+1<<63)
				r = binary.BigEndian.AppendUint32(r, uint32(a.Header.IssuingTime.Nanosecond()))
				return append(r, a.BodyHash[:]...)
			},
			enc: func(x any) []byte {
				if x.(*iotago.Attestation) == nil {
					return nil
				}
				return kit.EncAttestation(x.(*iotago.Attestation))
			}})
	default:
		for i := 0; i < n; i++ {
			var o iotago.OutputID
			b := id(i)
			copy(o[:], b[:])
			copy(o[32:], g.Bytes(6, "tail"))
			xs = append(xs, o)
		}
		return ordOf46[iotago.OutputID](ord46{kind: "output ID", xs: xs,
			rank: func(x any) []byte { o := x.(iotago.OutputID); return o[:] },
			enc:  func(x any) []byte { o := x.(iotago.OutputID); return o[:] },
			sort: func(xs []any) { l := iotago.OutputIDs(typed46[iotago.OutputID](xs)); l.Sort(); back46(xs, l) }})
	}
}

// Orders are total and follow the content, sorting gives the one order the syntax takes.
func TestC46(t *testing.T) {
	kit.Check(t, 9000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		o := order46(g)
		sign := func(x int) int { return min(1, max(-1, x)) }
		encs := make([][]byte, len(o.xs))
		for i := range o.xs {
			encs[i] = o.enc(o.xs[i])
		}
		for i, a := range o.xs {
			for j, b := range o.xs {
				if got, want := sign(o.cmp(a, b)), bytes.Compare(o.rank(a), o.rank(b)); got != want {
					kit.Fail(rt, "%ss %d and %d compare as %d, want %d:\n%x\n%x", o.kind, i, j, got, want, encs[i], encs[j])
				}
			}
		}
		ascending := func(xs []any, strict bool) bool {
			for i := 1; i < len(xs); i++ {
				if d := bytes.Compare(o.rank(xs[i-1]), o.rank(xs[i])); d > 0 || strict && d == 0 {
					return false
				}
			}
			return true
		}
		accept := func(xs []any, how string) {
			want := ascending(xs, true)
			if o.kind != "attestation" {
				if err := o.unique(xs); (err == nil) != want {
					kit.Fail(rt, "%s %ss: strictly ascending %v, the validator says %v: %x", how, o.kind, want, err, encs)
				}
			}
			if o.wire != nil {
				if err := o.wire(xs); (err == nil) != want {
					kit.Fail(rt, "%s %ss: strictly ascending %v, encoding them with validation says %v: %x", how, o.kind, want, err, encs)
				}
			}
		}
		accept(o.xs, "drawn")
		if o.sort != nil {
			var first [][]byte
			for round := 0; round < 2; round++ {
				perm := rapid.Permutation(append([]any{}, o.xs...)).Draw(rt, "perm")
				if len(perm) != len(o.xs) {
					kit.Harness(rt, "permutation")
				}
				got := append([]any{}, perm...)
				o.sort(got)
				if !ascending(got, false) {
					kit.Fail(rt, "sorted %ss are not in order: %x", o.kind, encs)
				}
				left := append([]any{}, o.xs...)
				for _, x := range got {
					i := slices.Index(left, x)
					if i < 0 {
						kit.Fail(rt, "sorting %ss loses or repeats elements: %x", o.kind, encs)
					}
					left = append(left[:i], left[i+1:]...)
				}
				var ranks [][]byte
				for _, x := range got {
					ranks = append(ranks, o.rank(x))
				}
				if round == 0 {
					first = ranks
				} else if fmt.Sprint(first) != fmt.Sprint(ranks) {
					kit.Fail(rt, "two permutations of the same %ss sort differently: %x", o.kind, encs)
				}
				accept(got, "sorted")
				again := append([]any{}, got...)
				o.sort(again)
				if ascending(got, true) && !slices.Equal(again, got) {
					kit.Fail(rt, "sorting sorted %ss changes them: %x", o.kind, encs)
				}
				if ascending(got, true) && len(got) > 2 {
					c.Label(o.kind + ": sorted, distinct")
				}
			}
		}
		for i := range o.xs {
			if !bytes.Equal(o.enc(o.xs[i]), encs[i]) {
				kit.Fail(rt, "comparing and sorting changed a %s: %x -> %x", o.kind, encs[i], o.enc(o.xs[i]))
			}
		}
		if len(o.xs) > 1 {
			c.NonTrivial(o.kind, fmt.Sprintf("%x", encs))
		}
		c.Label(fmt.Sprintf("%s, ascending %v", o.kind, ascending(o.xs, true)))
		c.Sample("%d %ss: %.120x", len(o.xs), o.kind, encs)
	})
}
