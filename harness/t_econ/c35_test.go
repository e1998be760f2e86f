package t_econ

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// genFree draws parameters that meet the constraints, with everything unconstrained drawn from its whole range.
func genFree(g *kit.G) kit.Spec {
	s := genSane(g)
	f := g.Params()
	s.Name, s.HRP, s.Version = f.Name, f.HRP, f.Version
	s.StorageCost, s.FactorData, s.OffOutput, s.OffKey, s.OffStaking, s.OffDelegation = f.StorageCost, f.FactorData, f.OffOutput, f.OffKey, f.OffStaking, f.OffDelegation
	s.GenesisUnix = f.GenesisUnix
	s.MinRMC, s.RMCInc, s.RMCDec, s.MaxBuf, s.MaxValBuf = f.MinRMC, f.RMCInc, f.RMCDec, f.MaxBuf, f.MaxValBuf
	s.Unbonding, s.Punish = f.Unbonding, f.Punish
	s.SigWindow, s.SigRatio, s.SigOff = f.SigWindow, f.SigRatio, f.SigOff
	s.Retention, s.Committee, s.ChainSwitch = f.Retention, f.Committee, f.ChainSwitch
	s.Profit = uint8(g.Int(0, 63, "profit"))
	s.WS = f.WS
	s.WS.DataByte, s.WS.Block = iotago.WorkScore(g.U32("w1")), iotago.WorkScore(g.U32("w2"))
	s.GenesisSlot = g.U32("gs2")
	return s
}

// specBytes is the wire form of configured parameters, with the derived values as given.
func specBytes(s kit.Spec, mp *iotago.ManaParameters, rp *iotago.RewardsParameters) []byte {
	var b []byte
	u8 := func(xs ...uint8) { b = append(b, xs...) }
	u16 := func(x uint16) { b = binary.LittleEndian.AppendUint16(b, x) }
	u32 := func(xs ...uint32) {
		for _, x := range xs {
			b = binary.LittleEndian.AppendUint32(b, x)
		}
	}
	u64 := func(xs ...uint64) {
		for _, x := range xs {
			b = binary.LittleEndian.AppendUint64(b, x)
		}
	}
	u8(0, s.Version, uint8(len(s.Name)))
	b = append(b, s.Name...)
	u8(uint8(len(s.HRP)))
	b = append(b, s.HRP...)
	u64(s.StorageCost)
	u8(s.FactorData)
	u64(s.OffOutput, s.OffKey, s.OffStaking, s.OffDelegation)
	w := s.WS
	for _, x := range []iotago.WorkScore{w.DataByte, w.Block, w.Input, w.ContextInput, w.Output, w.NativeToken, w.Staking, w.BlockIssuer, w.Allotment, w.SignatureEd25519} {
		u32(uint32(x))
	}
	u8(s.Bits, s.GenRate, s.GenRateExp)
	u16(uint16(len(mp.DecayFactors)))
	u32(mp.DecayFactors...)
	u8(s.DecExp)
	u32(mp.DecayFactorEpochsSum)
	u8(s.DecSumExp, s.Annual)
	u64(s.Supply)
	u32(s.GenesisSlot)
	u64(uint64(s.GenesisUnix))
	u8(s.SlotDur, s.EpochExp)
	u32(s.Unbonding)
	u8(s.ValPerSlot)
	u32(s.Punish)
	u16(s.LiveLow)
	u16(s.LiveUp)
	u32(s.MinCA, s.MaxCA, s.Nearing)
	u64(s.MinRMC, s.RMCInc, s.RMCDec)
	u32(s.IncThr, s.DecThr, s.SchedRate, s.MaxBuf, s.MaxValBuf)
	u8(s.SigWindow, s.SigRatio, s.SigOff)
	u8(s.Profit)
	u32(uint32(rp.BootstrappingDuration))
	u8(s.RewRatio)
	u64(uint64(rp.InitialTargetRewardsRate), uint64(rp.FinalTargetRewardsRate))
	u8(s.PoolExp)
	u16(s.Retention)
	u8(s.Committee, s.ChainSwitch)
	return b
}

// reported compares what the accessors report with what was configured.
func reported(rt *rapid.T, what string, p iotago.ProtocolParameters, s kit.Spec) {
	eq := func(name string, got, want any) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			kit.Fail(rt, "%s: %s is %v, configured %v", what, name, got, want)
		}
	}
	eq("Version", uint8(p.Version()), s.Version)
	eq("NetworkName", p.NetworkName(), s.Name)
	eq("Bech32HRP", p.Bech32HRP(), s.HRP)
	h := blake2b.Sum256([]byte(s.Name))
	eq("NetworkID", p.NetworkID(), binary.LittleEndian.Uint64(h[:8]))
	st := p.StorageScoreParameters()
	eq("StorageScoreParameters", []uint64{uint64(st.StorageCost), uint64(st.FactorData), uint64(st.OffsetOutputOverhead), uint64(st.OffsetEd25519BlockIssuerKey), uint64(st.OffsetStakingFeature), uint64(st.OffsetDelegation)},
		[]uint64{s.StorageCost, uint64(s.FactorData), s.OffOutput, s.OffKey, s.OffStaking, s.OffDelegation})
	eq("WorkScoreParameters", *p.WorkScoreParameters(), s.WS)
	m := p.ManaParameters()
	eq("mana parameters", []uint8{m.BitsCount, m.GenerationRate, m.GenerationRateExponent, m.DecayFactorsExponent, m.DecayFactorEpochsSumExponent, m.AnnualDecayFactorPercentage},
		[]uint8{s.Bits, s.GenRate, s.GenRateExp, s.DecExp, s.DecSumExp, s.Annual})
	eq("TokenSupply", uint64(p.TokenSupply()), s.Supply)
	eq("GenesisSlot", uint32(p.GenesisSlot()), s.GenesisSlot)
	eq("GenesisUnixTimestamp", p.GenesisUnixTimestamp(), s.GenesisUnix)
	gid := p.GenesisBlockID()
	eq("GenesisBlockID", fmt.Sprintf("%x", gid[:]), fmt.Sprintf("%064x%02x%02x%02x%02x", 0, byte(s.GenesisSlot), byte(s.GenesisSlot>>8), byte(s.GenesisSlot>>16), byte(s.GenesisSlot>>24)))
	eq("SlotDurationInSeconds", p.SlotDurationInSeconds(), s.SlotDur)
	eq("SlotsPerEpochExponent", p.SlotsPerEpochExponent(), s.EpochExp)
	if x, ok := p.(*iotago.V3ProtocolParameters); ok {
		eq("ParamEpochDurationInSlots", uint32(x.ParamEpochDurationInSlots()), uint32(1)<<s.EpochExp)
	}
	eq("StakingUnbondingPeriod", uint32(p.StakingUnbondingPeriod()), s.Unbonding)
	eq("ValidationBlocksPerSlot", p.ValidationBlocksPerSlot(), s.ValPerSlot)
	eq("PunishmentEpochs", uint32(p.PunishmentEpochs()), s.Punish)
	eq("LivenessThresholdLowerBound", p.LivenessThresholdLowerBound(), time.Duration(s.LiveLow)*time.Second)
	eq("LivenessThresholdUpperBound", p.LivenessThresholdUpperBound(), time.Duration(s.LiveUp)*time.Second)
	eq("MinCommittableAge", uint32(p.MinCommittableAge()), s.MinCA)
	eq("MaxCommittableAge", uint32(p.MaxCommittableAge()), s.MaxCA)
	eq("EpochNearingThreshold", uint32(p.EpochNearingThreshold()), s.Nearing)
	c := p.CongestionControlParameters()
	eq("CongestionControlParameters", []uint64{uint64(c.MinReferenceManaCost), uint64(c.Increase), uint64(c.Decrease), uint64(c.IncreaseThreshold), uint64(c.DecreaseThreshold), uint64(c.SchedulerRate), uint64(c.MaxBufferSize), uint64(c.MaxValidationBufferSize)},
		[]uint64{s.MinRMC, s.RMCInc, s.RMCDec, uint64(s.IncThr), uint64(s.DecThr), uint64(s.SchedRate), uint64(s.MaxBuf), uint64(s.MaxValBuf)})
	v := p.VersionSignalingParameters()
	eq("VersionSignalingParameters", []uint8{v.WindowSize, v.WindowTargetRatio, v.ActivationOffset}, []uint8{s.SigWindow, s.SigRatio, s.SigOff})
	r := p.RewardsParameters()
	eq("RewardsParameters", []uint16{uint16(r.ProfitMarginExponent), uint16(r.RewardToGenerationRatio), uint16(r.PoolCoefficientExponent), r.RetentionPeriod},
		[]uint16{uint16(s.Profit), uint16(s.RewRatio), uint16(s.PoolExp), s.Retention})
	eq("TargetCommitteeSize", p.TargetCommitteeSize(), s.Committee)
	eq("ChainSwitchingThreshold", p.ChainSwitchingThreshold(), s.ChainSwitch)
}

// same35 demands that two parameter sets are equal in every respect.
func same35(rt *rapid.T, what string, p, q iotago.ProtocolParameters) {
	if !p.Equals(q) || !q.Equals(p) {
		kit.Fail(rt, "%s: equal parameters are not Equals", what)
	}
	h1, err1 := p.Hash()
	h2, err2 := q.Hash()
	if err1 != nil || err2 != nil || h1 != h2 {
		kit.Fail(rt, "%s: hashes of equal parameters are %x (%v) and %x (%v)", what, h1, err1, h2, err2)
	}
}

func TestC35_Options(t *testing.T) {
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		s := genFree(g)
		p, pn := build(s)
		if pn != nil {
			return // C36 decides which sets are refused
		}
		order := g.Int(0, 2, "order")
		if order == 0 {
			_, _ = p.Hash() // the caches are filled in another order
		} else if order == 1 {
			p.NetworkID()
		}
		reported(rt, "built", p, s)
		want := specBytes(s, p.ManaParameters(), p.RewardsParameters())
		b, err := p.Bytes()
		kit.NoErr(rt, err, "Bytes")
		if !bytes.Equal(b, want) {
			kit.Fail(rt, "Bytes are\n%x, want\n%x", b, want)
		}
		h, err := p.Hash()
		kit.NoErr(rt, err, "Hash")
		if h != iotago.Identifier(kit.Blake(want)) {
			kit.Fail(rt, "Hash is %x, want the BLAKE2b-256 hash of the binary form", h)
		}
		q, n, err := iotago.ProtocolParametersFromBytes(append(append([]byte{}, b...), 7))
		kit.NoErr(rt, err, "ProtocolParametersFromBytes")
		if n != len(b) {
			kit.Fail(rt, "ProtocolParametersFromBytes consumed %d of %d bytes", n, len(b))
		}
		reported(rt, "decoded", q, s)
		same35(rt, "decoded", p, q)
		api := g.E.API()
		j, err := api.JSONEncode(p)
		kit.NoErr(rt, err, "JSONEncode")
		var jq iotago.ProtocolParameters
		kit.NoErr(rt, api.JSONDecode(j, &jq), "JSONDecode of %s", j)
		reported(rt, "decoded from JSON", jq, s)
		same35(rt, "decoded from JSON", p, jq)
		jb, err := jq.Bytes()
		kit.NoErr(rt, err, "Bytes")
		if !bytes.Equal(jb, want) {
			kit.Fail(rt, "Bytes after the JSON round trip are\n%x, want\n%x", jb, want)
		}
		p2, _ := build(s)
		same35(rt, "built again", p, p2)
		// the parameters an API is made for are those it reports
		s2 := s
		s2.WS = g.Params().WS // the work score of a maximal block has to fit its type
		p3, _ := build(s2)
		if a := iotago.V3API(p3); !a.ProtocolParameters().Equals(p3) || a.Version() != iotago.Version(s.Version) {
			kit.Fail(rt, "an API does not report the parameters it is made for")
		}
		if x := s2.WS == s.WS; x != p3.Equals(p) {
			kit.Fail(rt, "parameters with other work scores are equal: %v", p3.Equals(p))
		}
		if g.Rare(8, "apis") {
			s4 := s
			s4.WS = g.Params().WS
			p4, _ := build(s4)
			if x, y := iotago.V3API(p3), iotago.LatestAPI(p4); x.(eq35).Equals(y) != (s2.WS == s4.WS) || !y.(eq35).Equals(iotago.V3API(p4)) {
				kit.Fail(rt, "APIs of parameters with other work scores are equal: %v", x.(eq35).Equals(y))
			}
		}
		if x := iotago.NetworkIDFromString(s.Name); x != p.NetworkID() {
			kit.Fail(rt, "NetworkIDFromString(%q) is %d, the parameters report %d", s.Name, x, p.NetworkID())
		}
		c.NonTrivial(want)
		c.Label(fmt.Sprintf("%d00 decay factors", len(p.ManaParameters().DecayFactors)/100))
		c.Sample(fmt.Sprintf("%+v: reported, round-tripped in %d bytes", s, len(b)))
	})
}

// groups lists the options with the fields of a Spec they set.
func groups(s kit.Spec) (names []string, opts []options.Option[iotago.V3ProtocolParameters], set []func(t *kit.Spec)) {
	add := func(n string, o options.Option[iotago.V3ProtocolParameters], f func(t *kit.Spec)) {
		names, opts, set = append(names, n), append(opts, o), append(set, f)
	}
	add("version", iotago.WithVersion(iotago.Version(s.Version)), func(t *kit.Spec) { t.Version = s.Version })
	add("network", iotago.WithNetworkOptions(s.Name, iotago.NetworkPrefix(s.HRP)), func(t *kit.Spec) { t.Name, t.HRP = s.Name, s.HRP })
	add("storage", iotago.WithStorageOptions(iotago.BaseToken(s.StorageCost), iotago.StorageScoreFactor(s.FactorData), iotago.StorageScore(s.OffOutput), iotago.StorageScore(s.OffKey), iotago.StorageScore(s.OffStaking), iotago.StorageScore(s.OffDelegation)), func(t *kit.Spec) {
		t.StorageCost, t.FactorData, t.OffOutput, t.OffKey, t.OffStaking, t.OffDelegation = s.StorageCost, s.FactorData, s.OffOutput, s.OffKey, s.OffStaking, s.OffDelegation
	})
	add("work score", iotago.WithWorkScoreOptions(s.WS.DataByte, s.WS.Block, s.WS.Input, s.WS.ContextInput, s.WS.Output, s.WS.NativeToken, s.WS.Staking, s.WS.BlockIssuer, s.WS.Allotment, s.WS.SignatureEd25519), func(t *kit.Spec) { t.WS = s.WS })
	add("time", iotago.WithTimeProviderOptions(iotago.SlotIndex(s.GenesisSlot), s.GenesisUnix, s.SlotDur, s.EpochExp), func(t *kit.Spec) {
		t.GenesisSlot, t.GenesisUnix, t.SlotDur, t.EpochExp = s.GenesisSlot, s.GenesisUnix, s.SlotDur, s.EpochExp
	})
	add("liveness", iotago.WithLivenessOptions(s.LiveLow, s.LiveUp, iotago.SlotIndex(s.MinCA), iotago.SlotIndex(s.MaxCA), iotago.SlotIndex(s.Nearing)), func(t *kit.Spec) {
		t.LiveLow, t.LiveUp, t.MinCA, t.MaxCA, t.Nearing = s.LiveLow, s.LiveUp, s.MinCA, s.MaxCA, s.Nearing
	})
	add("supply", iotago.WithSupplyOptions(iotago.BaseToken(s.Supply), s.Bits, s.GenRate, s.GenRateExp, s.DecExp, s.DecSumExp, s.Annual), func(t *kit.Spec) {
		t.Supply, t.Bits, t.GenRate, t.GenRateExp, t.DecExp, t.DecSumExp, t.Annual = s.Supply, s.Bits, s.GenRate, s.GenRateExp, s.DecExp, s.DecSumExp, s.Annual
	})
	add("congestion", iotago.WithCongestionControlOptions(iotago.Mana(s.MinRMC), iotago.Mana(s.RMCInc), iotago.Mana(s.RMCDec), iotago.WorkScore(s.IncThr), iotago.WorkScore(s.DecThr), iotago.WorkScore(s.SchedRate), s.MaxBuf, s.MaxValBuf), func(t *kit.Spec) {
		t.MinRMC, t.RMCInc, t.RMCDec, t.IncThr, t.DecThr, t.SchedRate, t.MaxBuf, t.MaxValBuf = s.MinRMC, s.RMCInc, s.RMCDec, s.IncThr, s.DecThr, s.SchedRate, s.MaxBuf, s.MaxValBuf
	})
	add("staking", iotago.WithStakingOptions(iotago.EpochIndex(s.Unbonding), s.ValPerSlot, iotago.EpochIndex(s.Punish)), func(t *kit.Spec) {
		t.Unbonding, t.ValPerSlot, t.Punish = s.Unbonding, s.ValPerSlot, s.Punish
	})
	add("signaling", iotago.WithVersionSignalingOptions(s.SigWindow, s.SigRatio, s.SigOff), func(t *kit.Spec) {
		t.SigWindow, t.SigRatio, t.SigOff = s.SigWindow, s.SigRatio, s.SigOff
	})
	add("rewards", iotago.WithRewardsOptions(s.Profit, s.PoolExp, s.RewRatio, s.Retention), func(t *kit.Spec) {
		t.Profit, t.PoolExp, t.RewRatio, t.Retention = s.Profit, s.PoolExp, s.RewRatio, s.Retention
	})
	add("committee", iotago.WithTargetCommitteeSize(s.Committee), func(t *kit.Spec) { t.Committee = s.Committee })
	add("chain switching", iotago.WithChainSwitchingThreshold(s.ChainSwitch), func(t *kit.Spec) { t.ChainSwitch = s.ChainSwitch })
	return
}

// Options in any order, overriding each other: each sets exactly its own values, and the last one stands.
func TestC35_Order(t *testing.T) {
	kit.Check(t, 250, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		a, b := genFree(g), genFree(g)
		var opts []options.Option[iotago.V3ProtocolParameters]
		var want kit.Spec
		type pick struct {
			group int
			which int
		}
		var ps []pick
		na, oa, sa := groups(a)
		_, ob, sb := groups(b)
		for i := range na {
			ps = append(ps, pick{i, 0}) // every group is set at least once
		}
		for i := g.Int(0, 5, "more"); i > 0; i-- {
			ps = append(ps, pick{g.Int(0, len(na)-1, "group"), 1})
		}
		ps = rapid.Permutation(ps).Draw(rt, "order")
		desc := ""
		for _, x := range ps {
			if x.which == 0 {
				opts = append(opts, oa[x.group])
				sa[x.group](&want)
			} else {
				opts = append(opts, ob[x.group])
				sb[x.group](&want)
			}
			desc += fmt.Sprintf("%s/%d ", na[x.group], x.which)
		}
		var p *iotago.V3ProtocolParameters
		if kit.Panics(func() { p = iotago.NewV3SnapshotProtocolParameters(opts...) }) != nil {
			c.Label("refused")
			return
		}
		reported(rt, "options "+desc, p, want)
		c.NonTrivial(desc, specBytes(want, p.ManaParameters(), p.RewardsParameters()))
		c.Sample("options in the order " + desc)
	})
}

// differ35 demands that two sets with different binary forms are told apart.
func differ35(rt *rapid.T, what string, p, q iotago.ProtocolParameters) {
	if p.Equals(q) || q.Equals(p) {
		kit.Fail(rt, "%s: different parameters are Equals", what)
	}
	h1, err1 := p.Hash()
	h2, err2 := q.Hash()
	if err1 != nil || err2 != nil || h1 == h2 {
		kit.Fail(rt, "%s: the hashes of different parameters are %x (%v) and %x (%v)", what, h1, err1, h2, err2)
	}
}

// A change of any single value, configured or derived, makes another set.
func TestC35_Differ(t *testing.T) {
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		var p iotago.ProtocolParameters
		if g.Bool("pool") {
			p = g.Params().Params()
		} else {
			x, pn := build(genFree(g))
			if pn != nil {
				return
			}
			p = x
		}
		b, err := p.Bytes()
		kit.NoErr(rt, err, "Bytes")
		m := append([]byte{}, b...)
		mp := p.ManaParameters()
		n := len(mp.DecayFactors)
		// where the table of decay factors starts
		at := 3 + len(p.NetworkName()) + 1 + len(p.Bech32HRP()) + 8 + 1 + 32 + 40 + 3
		how := ""
		switch g.Int(0, 5, "how") {
		case 0:
			i, j := g.Int(0, n-1, "i"), g.Int(0, n-1, "j")
			if mp.DecayFactors[i] == mp.DecayFactors[j] {
				return
			}
			how = "two decay factors swapped"
			for k := 0; k < 4; k++ {
				m[at+2+4*i+k], m[at+2+4*j+k] = m[at+2+4*j+k], m[at+2+4*i+k]
			}
		case 1:
			how = "last decay factor dropped"
			m = append(append(append([]byte{}, b[:at]...), byte(n-1), byte((n-1)>>8)), append(append([]byte{}, b[at+2:at+2+4*(n-1)]...), b[at+2+4*n:]...)...)
		case 2:
			if n == 65535 {
				return
			}
			how = "a decay factor added"
			m = append(append(append([]byte{}, b[:at]...), byte(n+1), byte((n+1)>>8)), append(append(append([]byte{}, b[at+2:at+2+4*n]...), 1, 0, 0, 0), b[at+2+4*n:]...)...)
		case 3:
			// the values before or after the table
			how = "a bit flipped"
			i := g.Int(0, at-1, "head")
			m[i] ^= 1 << g.Int(0, 7, "bit")
		default:
			how = "a bit flipped"
			i := g.Int(at+2+4*n, len(b)-1, "tail")
			m[i] ^= 1 << g.Int(0, 7, "bit")
		}
		var q iotago.ProtocolParameters
		k, err := iotago.CommonSerixAPI().Decode(context.Background(), m, &q)
		if err != nil || k != len(m) {
			c.Label("not decodable")
			return
		}
		got, err := q.Bytes()
		kit.NoErr(rt, err, "Bytes")
		if !bytes.Equal(got, m) {
			kit.Fail(rt, "%s: the decoded parameters encode to\n%x, decoded from\n%x", how, got, m)
		}
		differ35(rt, how, p, q)
		// and against its JSON form
		if !utf8.ValidString(q.NetworkName()) || !utf8.ValidString(string(q.Bech32HRP())) {
			c.Label("no JSON form")
			return
		}
		j, err := g.E.API().JSONEncode(q)
		kit.NoErr(rt, err, "JSONEncode")
		var r iotago.ProtocolParameters
		if err := g.E.API().JSONDecode(j, &r); err == nil {
			same35(rt, how+", JSON", q, r)
			differ35(rt, how+", JSON", p, r)
		}
		c.NonTrivial(m)
		c.Label(how)
		c.Sample(fmt.Sprintf("%s: Equals and Hash tell %d bytes apart", how, len(m)))
	})
}

// Two sets that differ in one configured value.
func TestC35_Fields(t *testing.T) {
	kit.Check(t, 500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		s := genFree(g)
		p, pn := build(s)
		if pn != nil {
			return
		}
		u := s
		v := reflect.ValueOf(&u).Elem()
		i := g.Int(0, v.NumField()-1, "field")
		f, name := v.Field(i), v.Type().Field(i).Name
		if f.Kind() == reflect.Struct {
			j := g.Int(0, f.NumField()-1, "sub")
			name += "." + f.Type().Field(j).Name
			f = f.Field(j)
		}
		bit := uint64(1) << g.Int(0, 7, "bit")
		switch f.Kind() {
		case reflect.String:
			f.SetString(f.String() + "x")
		case reflect.Int64:
			f.SetInt(f.Int() ^ int64(bit))
		default:
			f.SetUint(f.Uint() ^ bit)
		}
		q, pn := build(u)
		if pn != nil {
			c.Label("refused: " + name)
			return
		}
		reported(rt, "changed "+name, q, u)
		differ35(rt, "changed "+name, p, q)
		c.NonTrivial(name, specBytes(u, q.ManaParameters(), q.RewardsParameters()))
		c.Label("changed " + name)
		c.Sample("changed " + name + ": told apart")
	})
}

type eq35 interface{ Equals(iotago.API) bool }
