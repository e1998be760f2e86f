package t_econ

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestC13(t *testing.T) {
	kit.Check(t, 40000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		mc := genMana(g)
		v := g.U64Max(mc.max, "v")
		s1, s2 := slotPair(g, mc.m)
		if s1 > s2 {
			s1, s2 = s2, s1
		}
		d := mc.m.Epoch(s2) - mc.m.Epoch(s1)
		gen := func(v uint64) (uint64, error) {
			r, err := mc.p.GenerateManaAndDecayBySlots(iotago.BaseToken(v), iotago.SlotIndex(s1), iotago.SlotIndex(s2))
			return uint64(r), err
		}
		want := mc.m.Generate(v, s1, s2)
		got, err := gen(v)
		fits := want.Sign() >= 0 && want.BitLen() <= 64
		what := fmt.Sprintf("%d tokens in slots %d-%d (%d epochs, %s)", v, s1, s2, d, mc.name)
		if fits != (err == nil) || fits && got != want.Uint64() {
			kit.Fail(rt, "mana generated by %s is %d (%v), specified %d", what, got, err, want)
		}
		if !fits {
			c.Label("not representable")
			return
		}
		if s2 == s1 && got != 0 {
			kit.Fail(rt, "mana generated within no time: %s gives %d", what, got)
		}
		if mc.real {
			// bounded by undecayed generation
			bound := mc.m.Gen(v, uint64(s2-s1))
			if new(big.Int).SetUint64(got).Cmp(bound.Add(bound, big.NewInt(1))) > 0 {
				kit.Fail(rt, "%s generate %d, more than without decay (%d)", what, got, bound)
			}
			// monotone in the amount up to rounding
			if w := v + min(g.U64Max(mc.max, "dv"), mc.max-v); w > v {
				x, err := gen(w)
				kit.NoErr(rt, err, "generating for %d", w)
				if x+2 < got {
					kit.Fail(rt, "%s generate %d but %d tokens generate %d", what, got, w, x)
				}
			}
			// a waiting output never has less the longer it waits within an epoch
			size := uint32(1) << mc.m.EpochExp
			if (s2-mc.m.GenesisSlot)&(size-1) != size-1 && s2 < math.MaxUint32 {
				y, err := mc.p.GenerateManaAndDecayBySlots(iotago.BaseToken(v), iotago.SlotIndex(s1), iotago.SlotIndex(s2+1))
				kit.NoErr(rt, err, "generating one slot longer")
				if uint64(y) < got {
					kit.Fail(rt, "%s generate %d, one slot later in the same epoch %d", what, got, y)
				}
			}
			// close to the sum over all slots of exactly decayed generation
			exact := exactGen(g.E.Spec, mc.m, v, s1, s2)
			if diff := math.Abs(exact - float64(got)); diff > 4+exact*2e-3 {
				kit.Fail(rt, "%s generate %d, the exactly decayed sum is %g", what, got, exact)
			}
		}
		if s2 > s1 {
			if _, err := mc.p.GenerateManaAndDecayBySlots(iotago.BaseToken(v), iotago.SlotIndex(s2), iotago.SlotIndex(s1)); !errors.Is(err, iotago.ErrManaDecayCreationIndexExceedsTargetIndex) {
				kit.Fail(rt, "generating backwards gives %v", err)
			}
			if v > 0 {
				c.NonTrivial(fmt.Sprint(v, s1, s2, mc.name))
			}
		}
		switch {
		case d < 2:
			c.Label(fmt.Sprintf("%d epoch boundaries", d))
		case int(d) > len(mc.m.Factors):
			c.Label("beyond the table")
		default:
			c.Label("several epochs")
		}
		c.Sample("%s -> %d", what, got)
	})
}

// exactGen sums the generation of each slot decayed by the true decay function, in floating point.
func exactGen(s kit.Spec, m *kit.ManaModel, v uint64, s1, s2 uint32) float64 {
	perSlot := float64(v) * float64(m.GenRate) / math.Pow(2, float64(m.GenRateExp))
	year := 365.0 * 24 * 3600
	size := math.Pow(2, float64(m.EpochExp))
	d := math.Pow(float64(s.Annual)/100, size*float64(s.SlotDur)/year)
	e1, e2 := float64(m.Epoch(s1)), float64(m.Epoch(s2))
	if e1 == e2 {
		return perSlot * float64(s2-s1)
	}
	before := size - math.Mod(float64(s1-m.GenesisSlot), size)
	since := math.Mod(float64(s2-m.GenesisSlot), size)
	k := e2 - e1
	r := perSlot*before*math.Pow(d, k) + perSlot*since
	// whole epochs between: decayed by 1..k-1
	if k > 1 {
		r += perSlot * size * d * (1 - math.Pow(d, k-1)) / (1 - d)
	}
	return r
}

// C13: potential mana of outputs.
func TestC13_Potential(t *testing.T) {
	kit.Check(t, 15000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		if models[g.E.Name] == nil {
			models[g.E.Name] = g.E.Model()
		}
		m := models[g.E.Name]
		o := g.Output(kit.OKind(g.Int(0, 5, "ok")), "o")
		dep := kit.RefMinDeposit(g.E.Spec, o).Uint64()
		amt := dep
		switch g.Int(0, 3, "amt") {
		case 0:
			amt -= min(amt, uint64(g.Int(0, 3, "below")))
		case 1:
			amt += uint64(g.Int(0, 3, "above"))
		default:
			amt = g.U64Max(g.E.Supply, "am")
		}
		setAmount(o, iotago.BaseToken(amt))
		s1, s2 := slotPair(g, m)
		if s1 > s2 {
			s1, s2 = s2, s1
		}
		want := g.E.PotentialMana(m, o, s1, s2)
		got, err := iotago.PotentialMana(g.E.API().ManaDecayProvider(), g.E.API().StorageScoreStructure(), o, iotago.SlotIndex(s1), iotago.SlotIndex(s2))
		kit.NoErr(rt, err, "potential mana")
		if want.Cmp(new(big.Int).SetUint64(uint64(got))) != 0 {
			kit.Fail(rt, "potential mana of a %T with %d tokens (deposit %d) in slots %d-%d is %d, specified %d (%s)", o, amt, dep, s1, s2, got, want, g.E.Name)
		}
		if want.Sign() > 0 {
			c.NonTrivial(kit.EncOutput(o), fmt.Sprint(s1, s2, g.E.Name))
		}
		c.Sample("%T with %d tokens (deposit %d) in slots %d-%d on %s: %d", o, amt, dep, s1, s2, g.E.Name, want)
	})
}

func setAmount(o iotago.Output, a iotago.BaseToken) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.Amount = a
	case *iotago.AccountOutput:
		o.Amount = a
	case *iotago.AnchorOutput:
		o.Amount = a
	case *iotago.FoundryOutput:
		o.Amount = a
	case *iotago.NFTOutput:
		o.Amount = a
	case *iotago.DelegationOutput:
		o.Amount = a
	}
}
