package t_econ

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

const year = 365.0 * 24 * 3600

func flt(x *big.Int) float64 { f, _ := new(big.Float).SetInt(x).Float64(); return f }

// truncTo compares an integer with the truncation of a real number known to a relative precision.
func truncTo(got uint64, real, rel float64) bool {
	return float64(got) <= real*(1+rel) && float64(got) >= math.Floor(real*(1-rel))-real*rel
}

// genSane draws parameters meeting every documented constraint.
func genSane(g *kit.G) kit.Spec {
	s := kit.BaseSpec()
	s.GenesisSlot = g.U32("gs") >> 3
	for {
		s.SlotDur = uint8(g.Int(1, 255, "sd"))
		s.EpochExp = uint8(g.Int(4, 16, "ee"))
		s.Annual = uint8(g.Int(1, 99, "an"))
		if s.Annual > 90 && g.Bool("less") {
			s.Annual = 70
		}
		eY := year / (float64(s.SlotDur) * math.Pow(2, float64(s.EpochExp)))
		if eY >= 2 && eY < 20000 {
			break
		}
	}
	size := uint32(1) << s.EpochExp
	s.Nearing = uint32(g.Int(3, int(size)-1, "en"))
	s.MaxCA = uint32(g.Int(2, int(s.Nearing)-1, "mx"))
	s.MinCA = uint32(g.Int(1, int(s.MaxCA)-1, "mn"))
	top := int(min(uint64(s.MinCA)*uint64(s.SlotDur)-1, 65535))
	s.LiveUp = uint16(g.Int(0, top, "lu"))
	if g.Bool("edge") {
		s.LiveUp = uint16(top)
	}
	s.LiveLow = uint16(g.Int(0, int(s.LiveUp), "ll"))
	s.DecExp = uint8(g.Int(16, 32, "de"))
	s.SchedRate = uint32(g.U64Max(math.MaxUint32/uint64(s.SlotDur), "sr"))
	s.IncThr = uint32(g.U64Max(uint64(s.SchedRate)*uint64(s.SlotDur), "it"))
	s.DecThr = uint32(g.U64Max(uint64(s.IncThr), "dt"))
	s.ValPerSlot = uint8(g.Int(0, 32, "vs"))
	s.Supply = max(1, g.U64Max(1<<uint(g.Int(10, 52, "sub")), "su"))
	s.PoolExp = uint8(g.Int(0, 64-bits(s.Supply), "pe"))
	s.Bits = uint8(g.Int(8, 63, "bits"))
	s.GenRate = uint8(g.Int(1, 20, "gr"))
	s.GenRateExp = uint8(g.Int(int(s.EpochExp), 30, "gre"))
	s.RewRatio = uint8(g.Int(1, 10, "rr"))
	s.DecSumExp = uint8(g.Int(0, 25, "se"))
	return s
}

// bits gives the number of bits of an amount; amounts within 2^-40 below a power of two count as one bit longer,
// because the library finds the bit length with a floating-point logarithm and may refuse such a set needlessly.
func bits(v uint64) int { return new(big.Int).SetUint64(v + v>>40).BitLen() }

// derived values of a parameter set in floating point
type derived struct {
	epochsPerYear, perEpoch, sum, boot, supplyBound float64
}

func derive(s kit.Spec) (d derived) {
	d.epochsPerYear = year / (float64(s.SlotDur) * math.Pow(2, float64(s.EpochExp)))
	a := float64(s.Annual) / 100
	d.perEpoch = math.Exp(math.Log(a) / d.epochsPerYear)
	d.sum = d.perEpoch / -math.Expm1(math.Log(a)/d.epochsPerYear) * math.Pow(2, float64(s.DecSumExp))
	d.boot = d.epochsPerYear / -math.Log(a)
	d.supplyBound = 21 * float64(s.Supply) * float64(s.GenRate) * math.Pow(2, float64(s.EpochExp)-float64(s.GenRateExp)) / -math.Log(a) * d.epochsPerYear
	return
}

func build(s kit.Spec) (p *iotago.V3ProtocolParameters, panicked any) {
	panicked = kit.Panics(func() { p = s.Params() })
	return
}

func TestC36(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		s := genSane(g)
		d := derive(s)
		// parameters on the edge of the mana supply rule are not decidable in floating point
		lim := math.Pow(2, float64(s.Bits))
		if r := d.supplyBound / lim; r > 0.999999 && r < 1.000001 {
			return
		}
		sumMul := math.Floor(d.sum) * float64(s.GenRate)
		if sumMul > 1<<32*0.99999 && sumMul < 1<<32*1.00001 || d.sum >= 1<<32 {
			return
		}
		bad := ""
		if d.supplyBound > lim {
			bad = "mana supply"
		}
		if sumMul > 1<<32 {
			bad = "sum times generation rate"
		}
		p, pn := build(s)
		if (pn != nil) != (bad != "") {
			kit.Fail(rt, "building parameters: %v; violated constraint: %q; %+v", pn, bad, s)
		}
		if bad != "" {
			c.Label("refused: " + bad)
			return
		}
		mp, rp := p.ManaParameters(), p.RewardsParameters()
		n := int(d.epochsPerYear)
		if len(mp.DecayFactors) != n {
			kit.Fail(rt, "%d decay factors, specified %d; %+v", len(mp.DecayFactors), n, s)
		}
		for _, i := range []int{1, 2, n / 2, n - 1, n, g.Int(1, n, "fi")} {
			if i < 1 || i > n {
				continue
			}
			want := math.Exp(math.Log(float64(s.Annual)/100)*float64(i)/d.epochsPerYear) * math.Pow(2, float64(s.DecExp))
			if !truncTo(uint64(mp.DecayFactors[i-1]), want, 1e-9) {
				kit.Fail(rt, "decay factor for %d epochs is %d, specified %f; %+v", i, mp.DecayFactors[i-1], want, s)
			}
		}
		if !truncTo(uint64(mp.DecayFactorEpochsSum), d.sum, 1e-7) {
			kit.Fail(rt, "sum of decay factors is %d, specified %f; %+v", mp.DecayFactorEpochsSum, d.sum, s)
		}
		if !truncTo(uint64(rp.BootstrappingDuration), d.boot, 1e-9) {
			kit.Fail(rt, "bootstrapping duration is %d, specified %f; %+v", rp.BootstrappingDuration, d.boot, s)
		}
		fin := new(big.Int).SetUint64(s.Supply)
		fin.Mul(fin, big.NewInt(int64(s.RewRatio)*int64(s.GenRate)))
		fin.Rsh(fin, uint(s.GenRateExp-s.EpochExp))
		if uint64(rp.FinalTargetRewardsRate) != fin.Uint64() {
			kit.Fail(rt, "final target rewards rate is %d, specified %d; %+v", rp.FinalTargetRewardsRate, fin, s)
		}
		ini := flt(fin) / math.Exp(math.Log(float64(s.Annual)/100)*math.Floor(float64(rp.BootstrappingDuration))/d.epochsPerYear)
		if !truncTo(uint64(rp.InitialTargetRewardsRate), ini, 1e-9) {
			kit.Fail(rt, "initial target rewards rate is %d, specified %f; %+v", rp.InitialTargetRewardsRate, ini, s)
		}
		// values given are values kept
		api := iotago.V3API(p)
		tp := api.TimeProvider()
		if uint32(tp.GenesisSlot()) != s.GenesisSlot || tp.SlotDurationSeconds() != int64(s.SlotDur) || tp.SlotsPerEpochExponent() != s.EpochExp || tp.GenesisUnixTime() != s.GenesisUnix {
			kit.Fail(rt, "time provider does not match %+v", s)
		}
		c.NonTrivial(fmt.Sprint(s))
		c.Sample("%+v -> %d factors, sum %d, bootstrapping %d, rewards %d/%d", s, n, mp.DecayFactorEpochsSum, rp.BootstrappingDuration, rp.InitialTargetRewardsRate, rp.FinalTargetRewardsRate)
	})
}

// C36: every documented constraint is enforced exactly at its boundary.
func TestC36_Constraints(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		s := kit.BaseSpec()
		s.SlotDur = uint8(g.Int(10, 100, "sd"))
		s.EpochExp = uint8(g.Int(10, 14, "ee"))
		s.GenRateExp = 24
		s.Supply = 1 << 40
		s.DecSumExp = 16
		s.PoolExp = uint8(g.Int(0, 20, "pe"))
		s.SchedRate, s.IncThr, s.DecThr = 30000000, 30000000, 30000000
		size := uint32(1) << s.EpochExp
		d := uint32(g.Int(0, 2, "d")) // 0: within, 1: at, 2: beyond the boundary
		var rule string
		var ok bool
		switch g.Int(0, 8, "rule") {
		case 0:
			rule, ok = "liveness bounds ordered", d < 2
			s.LiveLow = s.LiveUp + uint16(d) - 1
		case 1:
			rule, ok = "liveness below committable age", d < 1
			s.LiveUp = uint16(s.MinCA)*uint16(s.SlotDur) + uint16(d) - 1
			s.LiveLow = s.LiveUp
		case 2:
			rule, ok = "committable ages ordered", d < 1
			s.MinCA = s.MaxCA + d - 1
		case 3:
			rule, ok = "committable age below epoch nearing", d < 1
			s.MaxCA = s.Nearing + d - 1
		case 4:
			rule, ok = "epoch nearing below epoch", d < 1
			s.Nearing = size + d - 1
		case 5:
			rule, ok = "increase threshold within scheduler rate", d < 2
			s.IncThr = s.SchedRate*uint32(s.SlotDur) + d - 1
		case 6:
			rule, ok = "thresholds ordered", d < 2
			s.DecThr = s.IncThr + d - 1
		case 7:
			rule, ok = "pool coefficient", d < 2
			s.PoolExp = uint8(64-bits(s.Supply)) + uint8(d) - 1
		default:
			rule, ok = "validation blocks", d < 2
			s.ValPerSlot = 32 + uint8(d) - 1
		}
		_, pn := build(s)
		if (pn == nil) != ok {
			kit.Fail(rt, "constraint %q (%s): %v; %+v", rule, []string{"within", "at", "beyond"}[d], pn, s)
		}
		c.Label(fmt.Sprintf("%s: %v", rule, ok))
		c.NonTrivial(fmt.Sprint(s))
		c.Sample("%s, accepted %v: %+v", rule, ok, s)
	})
}
