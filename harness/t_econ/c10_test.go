package t_econ

import (
	"fmt"
	"math/big"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// genStorage draws storage parameters whose scores stay within 64 bits (the sums of a score are not checked by design).
func genStorage(g *kit.G) (kit.Spec, *iotago.StorageScoreStructure) {
	s := g.E.Spec
	if g.Int(0, 2, "own") > 0 {
		off := func(l string) uint64 { return g.U64Max(1<<48, l) }
		s.FactorData = byte(g.Int(0, 255, "fd"))
		s.OffOutput, s.OffKey, s.OffStaking, s.OffDelegation = off("o1"), off("o2"), off("o3"), off("o4")
		s.StorageCost = g.U64("sc")
		if g.Bool("small") {
			s.StorageCost %= 1 << 14
		}
	}
	return s, iotago.NewStorageScoreStructure(&iotago.StorageScoreParameters{StorageCost: iotago.BaseToken(s.StorageCost), FactorData: iotago.StorageScoreFactor(s.FactorData), OffsetOutputOverhead: iotago.StorageScore(s.OffOutput), OffsetEd25519BlockIssuerKey: iotago.StorageScore(s.OffKey), OffsetStakingFeature: iotago.StorageScore(s.OffStaking), OffsetDelegation: iotago.StorageScore(s.OffDelegation)})
}

func TestC10(t *testing.T) {
	kit.Check(t, 20000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		s, st := genStorage(g)
		o := g.Output(kit.OKind(g.Int(0, 5, "ok")), "o")
		what := fmt.Sprintf("%T %x under %+v", o, kit.EncOutput(o), *st.StorageScoreParameters)
		want := kit.RefScore(s, o)
		got := o.StorageScore(st, nil)
		if want.Cmp(new(big.Int).SetUint64(uint64(got))) != 0 {
			kit.Fail(rt, "score %d, specified %d: %s", got, want, what)
		}
		dep := kit.RefMinDeposit(s, o)
		d, err := st.MinDeposit(o)
		fits := dep.BitLen() <= 64
		if fits != (err == nil) || fits && uint64(d) != dep.Uint64() {
			kit.Fail(rt, "minimum deposit %d (%v), specified %d: %s", d, err, dep, what)
		}
		if fits {
			for _, a := range []int64{-1, 0, 1} {
				amt := new(big.Int).Add(dep, big.NewInt(a))
				if amt.Sign() < 0 || amt.BitLen() > 64 {
					continue
				}
				m, err := st.CoversMinDeposit(o, iotago.BaseToken(amt.Uint64()))
				if (err == nil) != (a >= 0) || err == nil && uint64(m) != dep.Uint64() {
					kit.Fail(rt, "amount %d against minimum %d: %d %v: %s", amt, dep, m, err, what)
				}
			}
			c.Label("deposit fits")
		} else {
			if _, err := st.CoversMinDeposit(o, 1<<64-1); err == nil {
				kit.Fail(rt, "unrepresentable minimum deposit reported as covered: %s", what)
			}
			c.Label("deposit overflows")
		}
		// the deposit of the return output, of one or several addresses, whatever was asked before
		kinds := kit.KAll
		if g.Bool("sized") {
			kinds = kit.KMulti | kit.KRestr
		}
		for n := g.Int(1, 4, "nRet"); n > 0; n-- {
			a := g.Addr(kinds, "ret")
			ret := kit.RefMinReturn(s, a)
			d, err := st.MinStorageDepositForReturnOutput(a)
			if fits := ret.BitLen() <= 64; fits != (err == nil) || fits && uint64(d) != ret.Uint64() {
				kit.Fail(rt, "minimum return deposit %d (%v), specified %d for %T under %+v", d, err, ret, a, *st.StorageScoreParameters)
			}
		}
		// nor does the deposit of an output depend on the outputs before it
		if g.Bool("second") {
			o2 := g.Output(kit.OKind(g.Int(0, 5, "ok2")), "o2")
			dep := kit.RefMinDeposit(s, o2)
			d, err := st.MinDeposit(o2)
			if fits := dep.BitLen() <= 64; fits != (err == nil) || fits && uint64(d) != dep.Uint64() {
				kit.Fail(rt, "minimum deposit %d (%v) of a second output, specified %d: %T %x under %+v", d, err, dep, o2, kit.EncOutput(o2), *st.StorageScoreParameters)
			}
		}
		// score is independent of amounts
		p := o.Clone()
		blank(g, p)
		if x := p.StorageScore(st, nil); x != got {
			kit.Fail(rt, "score changes from %d to %d with amounts only: %s", got, x, what)
		}
		// and never falls when content is added
		q := o.Clone()
		ucs, fs, ims := kit.Parts(q)
		var how string
		if pn := kit.Panics(func() {
			switch f := extra(g); g.Int(0, 2, "where") {
			case 0:
				how = fmt.Sprintf("feature %T", f)
				kit.SetParts(q, ucs, append(append([]iotago.Feature{}, fs...), f), ims)
			case 1:
				how = fmt.Sprintf("immutable feature %T", f)
				kit.SetParts(q, ucs, fs, append(append([]iotago.Feature{}, ims...), f))
			default:
				u := extraUC(g)
				how = fmt.Sprintf("%T", u)
				kit.SetParts(q, append(append([]iotago.UnlockCondition{}, ucs...), u), fs, ims)
			}
		}); pn == nil {
			if x := q.StorageScore(st, nil); x < got {
				kit.Fail(rt, "adding %s lowers the score from %d to %d: %s", how, got, x, what)
			} else if x > got {
				c.Label("grown by " + how)
			}
		}
		// the score follows the output when it is altered in place
		if ls := kit.Leaves(q); len(ls) > 0 && g.Rare(3, "alter") {
			l := ls[g.Int(0, len(ls)-1, "leaf")]
			l.Do(g.U64("k"))
			var again *big.Int
			if p := kit.Panics(func() { again = kit.RefScore(s, q) }); p == nil {
				if x := q.StorageScore(st, nil); again.Cmp(new(big.Int).SetUint64(uint64(x))) != 0 {
					kit.Fail(rt, "score %d after changing %s in place, specified %d: %s", x, l.Path, again, what)
				}
				dep := kit.RefMinDeposit(s, q)
				d, err := st.MinDeposit(q)
				if fits := dep.BitLen() <= 64; fits != (err == nil) || fits && uint64(d) != dep.Uint64() {
					kit.Fail(rt, "minimum deposit %d (%v) after changing %s in place, specified %d: %s", d, err, l.Path, dep, what)
				}
				c.Label("altered in place")
			}
		}
		c.NonTrivial(kit.EncOutput(o), fmt.Sprint(*st.StorageScoreParameters))
		c.Sample("%T of %d bytes under %+v: score %d, deposit %d", o, len(kit.EncOutput(o)), *st.StorageScoreParameters, want, dep)
	})
}

func blank(g *kit.G, o iotago.Output) {
	amt, mana := iotago.BaseToken(g.U64("bamt")), iotago.Mana(g.U64("bmana"))
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.Amount, o.Mana = amt, mana
	case *iotago.AccountOutput:
		o.Amount, o.Mana, o.FoundryCounter = amt, mana, 77
	case *iotago.AnchorOutput:
		o.Amount, o.Mana, o.StateIndex = amt, mana, 9
	case *iotago.FoundryOutput:
		o.Amount = amt
		o.TokenScheme.(*iotago.SimpleTokenScheme).MintedTokens = g.U256("bm")
	case *iotago.NFTOutput:
		o.Amount, o.Mana = amt, mana
	case *iotago.DelegationOutput:
		o.Amount, o.DelegatedAmount, o.StartEpoch = amt, amt, 5
	}
}

func extra(g *kit.G) iotago.Feature {
	switch g.Int(0, 7, "x") {
	case 0:
		return g.SenderFeat("x")
	case 1:
		return g.IssuerFeat("x")
	case 2:
		return g.MetaFeat("x")
	case 3:
		return g.StateMetaFeat("x")
	case 4:
		return g.TagFeat("x")
	case 5:
		return g.NTFeat("x")
	case 6:
		return g.BIFeat("x")
	}
	return g.StakeFeat("x")
}

func extraUC(g *kit.G) iotago.UnlockCondition {
	switch g.Int(0, 2, "xu") {
	case 0:
		return g.SDR("x")
	case 1:
		return g.TL("x")
	}
	return g.EX("x")
}
