package t_econ

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// manaCase is a provider with its model: derived from sane protocol parameters, or with a small made-up table.
type manaCase struct {
	p    *iotago.ManaDecayProvider
	m    *kit.ManaModel
	max  uint64 // largest amount of base tokens covered by the formula
	name string
	real bool
}

var models = map[string]*kit.ManaModel{}

func genMana(g *kit.G) manaCase {
	e := g.E
	if g.Int(0, 2, "derived") > 0 {
		if models[e.Name] == nil {
			models[e.Name] = e.Model()
		}
		return manaCase{e.API().ManaDecayProvider(), models[e.Name], e.Supply, e.Name, true}
	}
	m := &kit.ManaModel{GenesisSlot: g.U32("gs"), EpochExp: uint(g.Int(1, 13, "ee")), GenRate: uint64(g.Int(0, 255, "gr")), GenRateExp: uint(g.Int(13, 32, "gre")), DecExp: uint(g.Int(1, 32, "de")), SumExp: uint(g.Int(0, 20, "se"))}
	if m.GenesisSlot > 1<<31 {
		m.GenesisSlot >>= 2
	}
	n := g.Int(0, 12, "fn")
	f := uint64(1) << m.DecExp
	step := uint(2)
	if g.Bool("slow") { // hardly any decay: something is left after many passes over the table
		step = uint(g.Int(2, int(m.DecExp)+1, "step"))
	}
	for i := 0; i < n; i++ { // factors at most one, never increasing
		f -= g.U64Max(f>>step, "fd")
		m.Factors = append(m.Factors, uint32(min(f, math.MaxUint32)))
	}
	m.Sum = g.U64Max(1<<24, "sum")
	if m.GenRate > 0 {
		m.Sum = min(m.Sum, math.MaxUint32/m.GenRate)
	}
	tp := iotago.NewTimeProvider(iotago.SlotIndex(m.GenesisSlot), 1600000000, 10, uint8(m.EpochExp))
	p := iotago.NewManaDecayProvider(tp, uint8(m.EpochExp), &iotago.ManaParameters{BitsCount: 63, GenerationRate: uint8(m.GenRate), GenerationRateExponent: uint8(m.GenRateExp), DecayFactors: m.Factors, DecayFactorsExponent: uint8(m.DecExp), DecayFactorEpochsSum: uint32(m.Sum), DecayFactorEpochsSumExponent: uint8(m.SumExp)})
	// results must fit before the part of the scale beyond 32 bits is applied:
	// amount * 2^epoch * rate >> rateExp and amount * sum * rate >> (sumExp + rateExp - epochExp)
	most := func(factor uint64, scale uint) uint64 {
		x := new(big.Int).Lsh(big.NewInt(1), 62+min(scale, 32))
		x.Div(x, new(big.Int).SetUint64(max(factor, 1)))
		if x.BitLen() > 62 {
			return 1<<62 - 1
		}
		return x.Uint64()
	}
	top := min(most(m.GenRate<<m.EpochExp, m.GenRateExp), most(m.GenRate*m.Sum, m.SumExp+m.GenRateExp-m.EpochExp))
	if g.Bool("bits") { // all magnitudes
		top = min(top, 1<<g.Int(1, 62, "topbits"))
	}
	return manaCase{p, m, top, fmt.Sprintf("%+v", *m), false}
}

func epochDiff(g *kit.G, m *kit.ManaModel, l string) uint32 {
	n := max(1, len(m.Factors))
	switch g.Int(0, 6, l+"?") {
	case 6: // many passes over the table
		return uint32(n*(1<<g.Int(0, 10, l+".e")) + g.Int(0, n, l))
	case 0:
		return uint32(g.Int(0, 3, l))
	case 1:
		return uint32(n*g.Int(1, 3, l+".k") + g.Int(-1, 1, l))
	case 2:
		return uint32(g.Int(0, 5*n, l))
	}
	return uint32(g.Int(0, n, l))
}

// slotPair draws two slots biased to epoch boundaries.
func slotPair(g *kit.G, m *kit.ManaModel) (uint32, uint32) {
	size := uint64(1) << m.EpochExp
	room := (uint64(math.MaxUint32)-uint64(m.GenesisSlot))>>m.EpochExp - 1 // whole epochs
	edge := func(l string) uint64 {
		switch g.Int(0, 3, l+"?") {
		case 0:
			return g.U64Max(2, l)
		case 1:
			return size - 1 - g.U64Max(min(2, size-1), l)
		}
		return g.U64Max(size-1, l)
	}
	e1 := g.U64Max(min(room, 2000), "e1")
	a := e1*size + min(edge("s1"), size-1)
	d := min(uint64(epochDiff(g, m, "ed")), room-min(room, e1))
	b := (e1+d)*size + min(edge("s2"), size-1)
	return m.GenesisSlot + uint32(a), m.GenesisSlot + uint32(b)
}

func TestC12(t *testing.T) {
	kit.Check(t, 40000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		mc := genMana(g)
		v := g.U64("v")
		n := epochDiff(g, mc.m, "n")
		e1 := g.U32("e1") >> 1
		if uint64(e1)+uint64(n) > math.MaxUint32 {
			e1 = 0
		}
		want := mc.m.Decay(new(big.Int).SetUint64(v), n)
		dec := func(v uint64, a, b uint32) uint64 {
			r, err := mc.p.DecayManaByEpochs(iotago.Mana(v), iotago.EpochIndex(a), iotago.EpochIndex(b))
			kit.NoErr(rt, err, "decay of %d over epochs %d-%d (%s)", v, a, b, mc.name)
			return uint64(r)
		}
		got := dec(v, e1, e1+n)
		if want.Cmp(new(big.Int).SetUint64(got)) != 0 {
			kit.Fail(rt, "%d mana decayed over %d epochs is %d, specified %d (%s)", v, n, got, want, mc.name)
		}
		if got > v {
			kit.Fail(rt, "decay over %d epochs increases %d to %d (%s)", n, v, got, mc.name)
		}
		if w := v + min(uint64(g.Int(0, 1000, "dv")), math.MaxUint64-v); dec(w, e1, e1+n) < got {
			kit.Fail(rt, "decay is not monotone: %d -> %d but %d -> %d over %d epochs (%s)", v, got, w, dec(w, e1, e1+n), n, mc.name)
		}
		// more epochs, less mana (within one pass over the table the factors fall; multiple passes only ever shrink)
		if k := uint32(len(mc.m.Factors)); k > 0 && n+k > n {
			if x := dec(v, e1, e1+n+k); x > got {
				kit.Fail(rt, "%d decays to %d over %d epochs but to %d over %d (%s)", v, got, n, x, n+k, mc.name)
			}
		}
		if mc.real && dec(v, e1, e1+n+1) > got {
			kit.Fail(rt, "%d decays to more over %d epochs than over %d (%s)", v, n+1, n, mc.name)
		}
		if n > 0 {
			if _, err := mc.p.DecayManaByEpochs(iotago.Mana(v), iotago.EpochIndex(e1+n), iotago.EpochIndex(e1)); !errors.Is(err, iotago.ErrManaDecayCreationIndexExceedsTargetIndex) {
				kit.Fail(rt, "decaying backwards gives %v", err)
			}
		}
		// by slots
		s1, s2 := slotPair(g, mc.m)
		d := mc.m.Epoch(s2) - mc.m.Epoch(s1)
		r, err := mc.p.DecayManaBySlots(iotago.Mana(v), iotago.SlotIndex(s1), iotago.SlotIndex(s2))
		if mc.m.Epoch(s1) > mc.m.Epoch(s2) {
			kit.Harness(rt, "slots drawn backwards")
		}
		kit.NoErr(rt, err, "decay over slots %d-%d", s1, s2)
		if want := mc.m.Decay(new(big.Int).SetUint64(v), d); want.Cmp(new(big.Int).SetUint64(uint64(r))) != 0 {
			kit.Fail(rt, "%d mana decayed over slots %d-%d (%d epochs) is %d, specified %d (%s)", v, s1, s2, d, r, want, mc.name)
		}
		if d > 0 {
			if _, err := mc.p.DecayManaBySlots(iotago.Mana(v), iotago.SlotIndex(s2), iotago.SlotIndex(s1)); !errors.Is(err, iotago.ErrManaDecayCreationIndexExceedsTargetIndex) {
				kit.Fail(rt, "decaying backwards by slots gives %v", err)
			}
		}
		if n > 0 && v > 0 {
			c.NonTrivial(fmt.Sprint(v, n, mc.name, s1, s2))
		}
		switch {
		case n == 0:
			c.Label("no epoch")
		case int(n) > len(mc.m.Factors):
			c.Label("beyond the table")
		default:
			c.Label("within the table")
		}
		c.Sample("%d over %d epochs -> %d; slots %d-%d -> %d", v, n, got, s1, s2, r)
	})
}

// C12: the target rewards decay from epoch 0 until bootstrapping ends.
func TestC12_Rewards(t *testing.T) { targetRewards(t) }

// C36: the same for the target reward of an epoch as a derived parameter.
func TestC36_TargetReward(t *testing.T) { targetRewards(t) }

func targetRewards(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		if models[g.E.Name] == nil {
			models[g.E.Name] = g.E.Model()
		}
		m := models[g.E.Name]
		api := g.E.API()
		r := api.ProtocolParameters().RewardsParameters()
		var e uint32
		switch g.Int(0, 2, "e?") {
		case 0:
			e = uint32(int64(r.BootstrappingDuration) + int64(g.Int(-2, 2, "e")))
		case 1:
			e = uint32(g.Int(0, int(r.BootstrappingDuration)+10, "e"))
		default:
			e = g.U32("e")
		}
		want := new(big.Int).SetUint64(uint64(r.FinalTargetRewardsRate))
		if e <= uint32(r.BootstrappingDuration) {
			want = m.Decay(new(big.Int).SetUint64(uint64(r.InitialTargetRewardsRate)), e)
		}
		got, err := r.TargetReward(iotago.EpochIndex(e), api)
		kit.NoErr(rt, err, "target reward of epoch %d", e)
		if uint64(got) != want.Uint64() {
			kit.Fail(rt, "target reward of epoch %d is %d, specified %d (%s)", e, got, want, g.E.Name)
		}
		c.NonTrivial(g.E.Name, fmt.Sprint(e))
		c.Sample("%s epoch %d: %d", g.E.Name, e, want)
	})
}
