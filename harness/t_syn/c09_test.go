package t_syn

import (
	"fmt"
	"strings"
	"testing"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func setSlot(id *[36]byte, slot uint32) {
	for i := 0; i < 4; i++ {
		id[32+i] = byte(slot >> (8 * i))
	}
}

func blockEdits(g *kit.G, b *iotago.Block) (e edits) {
	s := g.E.Spec
	h := &b.Header
	commit := func(p *iotago.CommitmentID, slot uint32) {
		x := [36]byte(*p)
		setSlot(&x, slot)
		*p = iotago.CommitmentID(x)
	}
	e.add("version", func() { h.ProtocolVersion = iotago.Version(g.Int(0, 5, "v")) })
	e.add("network", func() { h.NetworkID ^= 1 << g.Int(0, 63, "nb") })
	// edges of the commitment window
	slot := s.RefSlotOf(h.IssuingTime)
	near := func(l string) uint32 {
		d := int64([]uint32{s.MinCA, s.MaxCA, 0}[g.Int(0, 2, l+".edge")]) + int64(g.Int(-1, 1, l+".d"))
		return uint32(int64(slot) - d)
	}
	edge := func(l string) uint32 {
		switch g.Int(0, 5, l) {
		case 0:
			return s.GenesisSlot
		case 1:
			return uint32(int64(s.GenesisSlot) + int64(g.Int(-1, 2, l+".g")))
		case 2:
			return g.U32(l + ".any")
		case 3:
			return uint32(0xffffffff) - uint32(g.Int(0, int(s.MaxCA)+2, l+".top"))
		}
		return near(l)
	}
	e.add("commitment slot", func() { commit(&h.SlotCommitmentID, edge("cs")) })
	e.add("commitment slot", func() { commit(&h.SlotCommitmentID, near("cs")) })
	e.add("issuing time", func() {
		t := s.GenesisUnix
		switch g.Int(0, 3, "it") {
		case 0: // around a slot boundary near the start
			t += int64(g.Int(0, 60, "its"))*int64(s.SlotDur) + int64(g.Int(-1, 1, "itd"))
		case 1: // before genesis
			t -= int64(g.Int(0, 100, "itb"))
		default:
			c := int64(kit.SlotOf36([36]byte(h.SlotCommitmentID)))
			d := int64([]uint32{s.MinCA, s.MaxCA}[g.Int(0, 1, "itm")]) + int64(g.Int(-1, 1, "itd"))
			t += (c + d - int64(s.GenesisSlot) - 1) * int64(s.SlotDur)
			h.IssuingTime = time.Unix(0, 0)
			ns := t*1e9 + int64(g.Int(0, 1, "itn"))*(int64(s.SlotDur)*1e9-1)
			if ns > 0 && t < 9000000000 {
				h.IssuingTime = time.Unix(0, ns).UTC()
				return
			}
			t = s.GenesisUnix
		}
		h.IssuingTime = time.Unix(t, int64(g.Int(0, 999999999, "itn"))).UTC()
	})
	var st, we, sh *iotago.BlockIDs
	maxN := 8
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		st, we, sh = &body.StrongParents, &body.WeakParents, &body.ShallowLikeParents
		e.add("max burned mana", func() { body.MaxBurnedMana = iotago.Mana(g.U64("mbm")) })
		e.add("payload size", func() {
			body.Payload = &iotago.TaggedData{Tag: kit.Expand(1, []int{0, 64, 65}[g.Int(0, 2, "tl")]), Data: kit.Expand(2, []int{0, 8192, 8193}[g.Int(0, 2, "dl")])}
		})
		if tx, ok := body.Payload.(*iotago.SignedTransaction); ok {
			e.add("transaction edit", func() {
				es := tx.Transaction.TransactionEssence
				if len(es.Inputs) > 0 && len(tx.Unlocks) > 0 {
					txEdits(g, tx).pick(g)
				}
			})
			e.add("transaction creation slot", func() {
				tx.Transaction.TransactionEssence.CreationSlot = iotago.SlotIndex(uint32(int64(slot) + int64(g.Int(-1, 1, "tcs"))))
			})
			for _, c := range tx.Transaction.TransactionEssence.ContextInputs {
				if ci, ok := c.(*iotago.CommitmentInput); ok {
					e.add("commitment input slot", func() { commit(&ci.CommitmentID, edge("cis")) })
					e.add("commitment input slot", func() { commit(&ci.CommitmentID, near("cis")) })
					e.add("commitment input slot against block", func() {
						commit(&ci.CommitmentID, uint32(int64(kit.SlotOf36([36]byte(h.SlotCommitmentID)))+int64(g.Int(-1, 1, "cib"))))
					})
				}
			}
			e.add("block size", func() { growTo(g, b, tx, 32768+g.Int(-1, 1, "sz")) })
		}
	case *iotago.ValidationBlockBody:
		st, we, sh = &body.StrongParents, &body.WeakParents, &body.ShallowLikeParents
		maxN = 50
		e.add("highest supported version", func() {
			body.HighestSupportedVersion = iotago.Version(int(h.ProtocolVersion) + g.Int(-1, 1, "hsv"))
		})
		e.add("highest supported version", func() { body.HighestSupportedVersion = iotago.Version(g.Int(0, 255, "hsv")) })
	}
	names := []string{"strong", "weak", "shallow"}
	lists := []*iotago.BlockIDs{st, we, sh}
	for i, l := range lists {
		e.add(names[i]+" parents count", func() {
			n := []int{0, 1, maxN, maxN + 1}[g.Int(0, 3, "pn")]
			*l = nil
			for j := 0; j < n; j++ {
				*l = append(*l, iotago.BlockID{byte(i + 1), byte(j)})
			}
		})
		if len(*l) > 0 {
			e.add(names[i]+" parent repeated", func() { *l = alter(g, *l, "dup", nil) })
			e.add(names[i]+" parents swapped", func() { *l = alter(g, *l, "swap", nil) })
			for k, m := range lists {
				if k != i && len(*m) > 0 {
					e.add(names[i]+" parent copied to "+names[k], func() {
						x := (*l)[g.Int(0, len(*l)-1, "pi")]
						if g.Rare(4, "nearly") {
							x[g.Int(0, 35, "pb")] ^= 1
						}
						*m = append(append(iotago.BlockIDs{}, (*m)...), x)
						kit.SortIDs(*m)
					})
				}
			}
		}
	}
	return
}

// growTo makes the block exactly size bytes long by adding outputs with metadata and padding.
func growTo(g *kit.G, b *iotago.Block, tx *iotago.SignedTransaction, size int) {
	var total uint64
	mk := func(n int) { // a basic output with n bytes of metadata
		m := &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"a": kit.Expand(1, n)}}
		o := &iotago.BasicOutput{Amount: 1, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: kit.Keys()[0].Addr}}, Features: iotago.BasicOutputFeatures{m}}
		o.Amount = iotago.BaseToken(max(1, kit.RefMinDeposit(g.E.Spec, o).Uint64()))
		total += uint64(o.Amount)
		tx.Transaction.Outputs = append(tx.Transaction.Outputs, o)
	}
	cur := len(kit.EncBlock(b))
	for size-cur > 8000 {
		mk(7000)
		cur = len(kit.EncBlock(b))
	}
	if size-cur > 100 {
		mk(0)
		f := tx.Transaction.Outputs[len(tx.Transaction.Outputs)-1].FeatureSet().Metadata()
		cur = len(kit.EncBlock(b))
		if size >= cur {
			f.Entries["a"] = kit.Expand(1, size-cur)
		}
		o := tx.Transaction.Outputs[len(tx.Transaction.Outputs)-1].(*iotago.BasicOutput)
		o.Amount = iotago.BaseToken(max(1, kit.RefMinDeposit(g.E.Spec, o).Uint64()))
	}
}

func TestC09(t *testing.T) {
	kit.Check(t, 40000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		kind := g.Int(0, 4, "bk")
		b := g.BlockWith(kind)
		var names []string
		for i, n := 0, g.Int(0, 2, "edits"); i < n; i++ {
			names = append(names, blockEdits(g, b).pick(g))
		}
		if body, ok := b.Body.(*iotago.BasicBlockBody); ok {
			if tx, ok := body.Payload.(*iotago.SignedTransaction); ok {
				for _, o := range tx.Transaction.Outputs {
					if skip(o) {
						return
					}
				}
			}
		}
		errs := kit.BlockErrs(g.E.Spec, b)
		enc := kit.EncBlock(b)
		what := []string{"validation", "empty", "tagged data", "candidacy", "transaction"}[kind] + " block"
		verdicts(rt, g.E, b, &iotago.Block{API: g.E.API()}, enc, errs, fmt.Sprintf("%s on %s after %q", what, g.E.Name, names))
		seen := map[string]bool{}
		for _, e := range errs {
			seen[e] = true
		}
		for e := range seen {
			c.Label("broken: " + e)
		}
		switch len(seen) {
		case 1:
			c.Label("exactly one rule broken")
		case 0:
			c.Label("accepted " + what)
		}
		if len(names) > 0 {
			c.NonTrivial(enc)
		}
		if len(enc) < 20000 {
			c.Sample("%s after %s breaks %q", what, strings.Join(names, ", "), errs)
		}
	})
}
