package t_misc

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// C44: the views on a transaction list exactly its parts, in order, and leave it alone.
func TestC44_Transaction(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		tx := g.Tx(kit.TxOpt{MaxIn: 6, MaxOut: 6}).Transaction
		es := tx.TransactionEssence
		// any order, any number: the views do not depend on validity
		if g.Rare(3, "shuffle") && len(es.ContextInputs) > 1 {
			es.ContextInputs = rapid.Permutation(es.ContextInputs).Draw(rt, "ctx order")
		}
		if g.Rare(4, "second commitment") {
			es.ContextInputs = append(es.ContextInputs, &iotago.CommitmentInput{CommitmentID: g.CommitmentID("cid2")})
		}
		for round := 0; round < 2; round++ {
			if round == 1 {
				if !g.Rare(4, "again") {
					return
				}
				// what was read before does not matter once the transaction is changed in place
				if n := len(es.ContextInputs); n > 0 {
					es.ContextInputs = es.ContextInputs[:n-1]
				}
				if n := len(tx.Outputs); n > 1 && g.Bool("fewer") {
					tx.Outputs = tx.Outputs[:n-1]
				}
				if n := len(tx.Outputs); n > 1 && g.Bool("swap") {
					tx.Outputs[0], tx.Outputs[n-1] = tx.Outputs[n-1], tx.Outputs[0]
				}
				if n := len(es.Inputs); n > 1 {
					es.Inputs = es.Inputs[1:]
				}
				for _, o := range tx.Outputs {
					if ucs, fs, ims := kit.Parts(o); len(fs) > 0 && g.Bool("drop feature") {
						kit.SetParts(o, ucs, fs[1:], ims)
					}
				}
			}
			before := kit.EncTx(tx)
			var bics []*iotago.BlockIssuanceCreditInput
			var rews []*iotago.RewardInput
			var com *iotago.CommitmentInput
			for _, x := range es.ContextInputs {
				switch x := x.(type) {
				case *iotago.BlockIssuanceCreditInput:
					bics = append(bics, x)
				case *iotago.RewardInput:
					rews = append(rews, x)
				case *iotago.CommitmentInput:
					if com == nil {
						com = x
					}
				}
			}
			same := func(what string, n, m int, eq func(i int) bool) {
				if n != m {
					kit.Fail(rt, "%s has %d entries, expected %d", what, n, m)
				}
				for i := 0; i < n; i++ {
					if !eq(i) {
						kit.Fail(rt, "%s differs at %d", what, i)
					}
				}
			}
			ins, cs, bi, ri := tx.Inputs(), tx.ContextInputs(), tx.BICInputs(), tx.RewardInputs()
			same("Inputs", len(ins), len(es.Inputs), func(i int) bool { return es.Inputs[i] == iotago.TxEssenceInputs{ins[i]}[0] })
			same("ContextInputs", len(cs), len(es.ContextInputs), func(i int) bool { return reflect.DeepEqual(cs[i], es.ContextInputs[i]) })
			same("BICInputs", len(bi), len(bics), func(i int) bool { return bi[i].AccountID == bics[i].AccountID })
			same("RewardInputs", len(ri), len(rews), func(i int) bool { return ri[i].Index == rews[i].Index })
			if got := tx.CommitmentInput(); (got == nil) != (com == nil) || com != nil && got.CommitmentID != com.CommitmentID {
				kit.Fail(rt, "CommitmentInput %v, the first one is %v", got, com)
			}
			id := kit.RefTxID(tx)
			set, err := tx.OutputsSet()
			kit.NoErr(rt, err, "OutputsSet")
			same("OutputsSet", len(set), len(tx.Outputs), func(i int) bool {
				o, ok := set[kit.RefOutputID(id, uint16(i))]
				return ok && o == iotago.Output(tx.Outputs[i])
			})
			// filters keep what passes, in order
			ty := iotago.OutputType(g.Int(0, 5, "ty"))
			var want []iotago.TxEssenceOutput
			for _, o := range tx.Outputs {
				if kit.EncOutput(o)[0] == byte(ty) {
					want = append(want, o)
				}
			}
			got := tx.Outputs.Filter(iotago.OutputsFilterByType(ty))
			same("Filter", len(got), len(want), func(i int) bool { return got[i] == want[i] })
			cut := uint64(g.U64("cut"))
			fs := set.Filter(func(oid iotago.OutputID, o iotago.Output) bool {
				return o == set[oid] && kit.AmountOf(o) <= cut
			})
			n := 0
			for oid, o := range set {
				if in := kit.AmountOf(o) <= cut; in {
					n++
					if fs[oid] != o {
						kit.Fail(rt, "OutputSet.Filter drops %s", oid)
					}
				}
			}
			if len(fs) != n || len(set) != len(tx.Outputs) {
				kit.Fail(rt, "OutputSet.Filter keeps %d of %d, expected %d", len(fs), len(set), n)
			}
			cl := set.Clone()
			same("OutputSet.Clone", len(cl), len(set), func(i int) bool {
				oid := kit.RefOutputID(id, uint16(i))
				return bytes.Equal(kit.EncOutput(cl[oid]), kit.EncOutput(set[oid]))
			})
			// what an output holds
			for i, o := range tx.Outputs {
				simple := false
				if b, ok := o.(*iotago.BasicOutput); ok {
					simple = len(b.UnlockConditions) == 1 && len(b.Features) == 0
					if b.IsSimpleTransfer() != simple {
						kit.Fail(rt, "IsSimpleTransfer of output %d is %v", i, !simple)
					}
				}
				if uint64(o.BaseTokenAmount()) != kit.AmountOf(o) || uint64(o.StoredMana()) != kit.ManaStored(o) || byte(o.Type()) != kit.EncOutput(o)[0] {
					kit.Fail(rt, "output %d (%T): type %d, amount %d, mana %d", i, o, o.Type(), o.BaseTokenAmount(), o.StoredMana())
				}
				sets(rt, o)
			}
			// allotments by account
			for _, a := range es.Allotments {
				if got := es.Allotments.Get(a.AccountID); got != a.Mana {
					kit.Fail(rt, "Allotments.Get(%s) = %d, expected %d", a.AccountID, got, a.Mana)
				}
			}
			other := iotago.AccountID(g.B32("other account"))
			for _, a := range es.Allotments {
				if a.AccountID == other {
					other[0]++
				}
			}
			if len(es.Allotments) < 200 {
				for again := true; again; {
					again = false
					for _, a := range es.Allotments {
						if a.AccountID == other {
							other[1]++
							again = true
						}
					}
				}
			}
			if got := es.Allotments.Get(other); got != 0 {
				kit.Fail(rt, "Allotments.Get of an account without allotment = %d", got)
			}
			// native token sums
			outs := iotago.Outputs[iotago.Output]{}
			for _, o := range tx.Outputs {
				outs = append(outs, o)
			}
			ids := []iotago.FoundryID{g.FoundryID("nt1"), g.FoundryID("nt2")}
			for i, k := 0, g.Int(0, 4, "nts"); i < k; i++ {
				f := g.NTFeat("nt")
				f.ID = ids[g.Int(0, 1, "ntid")]
				outs = append(outs, &iotago.BasicOutput{Features: iotago.BasicOutputFeatures{f}})
			}
			ref := kit.NTSums(outs)
			over := false
			for _, x := range ref {
				over = over || x.BitLen() > 256
			}
			enc := encOuts(outs)
			sum, err := outs.NativeTokenSum()
			if over != (err != nil) || over && !errors.Is(err, iotago.ErrNativeTokenSumExceedsUint256) {
				kit.Fail(rt, "NativeTokenSum gives %v although the sum is above 256 bits: %v", err, over)
			}
			if !over {
				same("NativeTokenSum", len(sum), len(ref), func(int) bool { return true })
				for id, x := range ref {
					if sum[id] == nil || sum[id].Cmp(x) != 0 || sum.ValueOrBigInt0(id).Cmp(x) != 0 {
						kit.Fail(rt, "NativeTokenSum of %s is %v, expected %v", id, sum[id], x)
					}
				}
				var absent iotago.FoundryID
				if sum.ValueOrBigInt0(absent).Sign() != 0 && ref[absent] == nil {
					kit.Fail(rt, "a native token that does not occur has a sum")
				}
				if again, _ := outs.NativeTokenSum(); !reflect.DeepEqual(again, sum) {
					kit.Fail(rt, "NativeTokenSum differs the second time: %v, %v", sum, again)
				}
			}
			if !bytes.Equal(encOuts(outs), enc) || !bytes.Equal(kit.EncTx(tx), before) {
				kit.Fail(rt, "reading changed the transaction")
			}
			c.NonTrivial(before)
			c.Label("transaction")
			c.Sample("%d inputs, %d context inputs, %d outputs", len(ins), len(cs), len(tx.Outputs))
		}
	})
}

func encOuts(os iotago.Outputs[iotago.Output]) (b []byte) {
	for _, o := range os {
		b = append(b, kit.EncOutput(o)...)
	}
	return
}

// sets compares the typed access to conditions and features with the lists.
func sets(rt *rapid.T, o iotago.Output) {
	ucs, fs, ims := kit.Parts(o)
	us := o.UnlockConditionSet()
	if len(us) != len(ucs) {
		kit.Fail(rt, "unlock condition set of %d for %d conditions", len(us), len(ucs))
	}
	uc := map[byte]iotago.UnlockCondition{}
	for _, u := range ucs {
		k := kit.EncUC(u)[0]
		uc[k] = u
		if us[iotago.UnlockConditionType(k)] != u || byte(u.Type()) != k {
			kit.Fail(rt, "unlock condition set: type %d is %v", k, us[iotago.UnlockConditionType(k)])
		}
	}
	check := func(what string, k byte, got, want any) {
		if g := reflect.ValueOf(got); g.IsNil() != (want == nil) || want != nil && got != want {
			kit.Fail(rt, "%s (type %d) is %v, the output has %v", what, k, got, want)
		}
	}
	pick := func(k byte) any {
		if u, ok := uc[k]; ok {
			return u
		}
		return nil
	}
	check("Address", 0, us.Address(), pick(0))
	check("StorageDepositReturn", 1, us.StorageDepositReturn(), pick(1))
	check("Timelock", 2, us.Timelock(), pick(2))
	check("Expiration", 3, us.Expiration(), pick(3))
	check("StateControllerAddress", 4, us.StateControllerAddress(), pick(4))
	check("GovernorAddress", 5, us.GovernorAddress(), pick(5))
	check("ImmutableAccount", 6, us.ImmutableAccount(), pick(6))
	feats := func(set iotago.FeatureSet, list []iotago.Feature) {
		if len(set) != len(list) {
			kit.Fail(rt, "feature set of %d for %d features", len(set), len(list))
		}
		m := map[byte]any{}
		for _, f := range list {
			k := kit.EncFeat(f)[0]
			m[k] = f
			if set[iotago.FeatureType(k)] != f || byte(f.Type()) != k {
				kit.Fail(rt, "feature set: type %d is %v", k, set[iotago.FeatureType(k)])
			}
		}
		check("SenderFeature", 0, set.SenderFeature(), m[0])
		check("Issuer", 1, set.Issuer(), m[1])
		check("Metadata", 2, set.Metadata(), m[2])
		check("StateMetadata", 3, set.StateMetadata(), m[3])
		check("Tag", 4, set.Tag(), m[4])
		check("NativeToken", 5, set.NativeToken(), m[5])
		check("BlockIssuer", 6, set.BlockIssuer(), m[6])
		check("Staking", 7, set.Staking(), m[7])
		if set.HasNativeTokenFeature() != (m[5] != nil) {
			kit.Fail(rt, "HasNativeTokenFeature = %v", m[5] == nil)
		}
		cl := set.Clone()
		if len(cl) != len(set) {
			kit.Fail(rt, "FeatureSet.Clone has %d of %d", len(cl), len(set))
		}
		for k, f := range set {
			if cl[k] == nil || !bytes.Equal(kit.EncFeat(cl[k]), kit.EncFeat(f)) {
				kit.Fail(rt, "FeatureSet.Clone changes type %d", k)
			}
		}
	}
	feats(o.FeatureSet(), fs)
	if im, ok := o.(iotago.ChainOutputImmutable); ok {
		feats(im.ImmutableFeatureSet(), ims)
	}
}

// C44: the parents of a block, by kind and in order.
func TestC44_Block(t *testing.T) {
	kit.Check(t, 2000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		b := g.Block()
		before := kit.EncBlock(b)
		var want []iotago.Parent
		var s, w, sh iotago.BlockIDs
		switch x := b.Body.(type) {
		case *iotago.BasicBlockBody:
			s, w, sh = x.StrongParents, x.WeakParents, x.ShallowLikeParents
		case *iotago.ValidationBlockBody:
			s, w, sh = x.StrongParents, x.WeakParents, x.ShallowLikeParents
		}
		for i, l := range []iotago.BlockIDs{s, w, sh} {
			for _, id := range l {
				want = append(want, iotago.Parent{ID: id, Type: []iotago.ParentsType{iotago.StrongParentType, iotago.WeakParentType, iotago.ShallowLikeParentType}[i]})
			}
		}
		var each []iotago.Parent
		b.ForEachParent(func(p iotago.Parent) { each = append(each, p) })
		ids, typed := b.Parents(), b.ParentsWithType()
		if len(ids) != len(want) || len(typed) != len(want) || len(each) != len(want) {
			kit.Fail(rt, "%d parents: Parents %d, ParentsWithType %d, ForEachParent %d", len(want), len(ids), len(typed), len(each))
		}
		for i, p := range want {
			if ids[i] != p.ID || typed[i] != p || each[i] != p {
				kit.Fail(rt, "parent %d is %v: Parents %s, ParentsWithType %v, ForEachParent %v", i, p, ids[i], typed[i], each[i])
			}
		}
		for i := range ids {
			ids[i] = iotago.EmptyBlockID
			typed[i].ID = iotago.EmptyBlockID
		}
		for i, l := range []iotago.BlockIDs{b.Body.StrongParentIDs(), b.Body.WeakParentIDs(), b.Body.ShallowLikeParentIDs()} {
			if !reflect.DeepEqual(append(iotago.BlockIDs{}, l...), append(iotago.BlockIDs{}, []iotago.BlockIDs{s, w, sh}[i]...)) {
				kit.Fail(rt, "parents of kind %d differ from the body's", i)
			}
		}
		if !bytes.Equal(kit.EncBlock(b), before) {
			kit.Fail(rt, "writing to the returned parents changed the block")
		}
		c.Label(fmt.Sprintf("%T", b.Body))
		if len(w)+len(sh) > 0 {
			c.NonTrivial(before)
		}
	})
}

// C44: the sets of consumed outputs and chains.
func TestC44_Inputs(t *testing.T) {
	kit.Check(t, 2000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		in := vm.InputSet{}
		chains := map[string]iotago.OutputID{}
		for i, n := 0, g.Int(0, 8, "n"); i < n; i++ {
			o := g.Output(kit.OKind(g.Int(0, 5, "k")), "o")
			id := g.OutputID("id")
			id[3] = byte(i)
			if k, ok := plainChainKey(id, o); ok {
				if _, dup := chains[k]; dup {
					continue
				}
				chains[k] = id
			}
			in[id] = o
		}
		os := in.OutputSet()
		if len(os) != len(in) {
			kit.Fail(rt, "OutputSet has %d of %d", len(os), len(in))
		}
		for id, o := range in {
			if os[id] != o {
				kit.Fail(rt, "OutputSet misses %s", id)
			}
		}
		cs := in.ChainInputSet()
		if len(cs) != len(chains) {
			kit.Fail(rt, "ChainInputSet has %d chains, expected %d", len(cs), len(chains))
		}
		for k, id := range chains {
			var raw [38]byte
			copy(raw[:], k[1:])
			var cid iotago.ChainID
			var b32 [32]byte
			copy(b32[:], k[1:])
			switch k[0] {
			case 'A':
				cid = iotago.AccountID(b32)
			case 'X':
				cid = iotago.AnchorID(b32)
			case 'N':
				cid = iotago.NFTID(b32)
			case 'D':
				cid = iotago.DelegationID(b32)
			case 'F':
				cid = iotago.FoundryID(raw)
			}
			e := cs[cid]
			if e == nil || e.ChainID != cid || e.OutputID != id || iotago.Output(e.Output) != in[id] {
				kit.Fail(rt, "ChainInputSet has %v for the chain %T %x of output %s", e, cid, k[1:], id)
			}
		}
		c.Label("input set")
		if len(chains) > 1 {
			c.NonTrivial(fmt.Sprint(len(in)), fmt.Sprint(chains))
		}
	})
}

func plainChainKey(id iotago.OutputID, o iotago.Output) (string, bool) {
	if _, ok := o.(*iotago.BasicOutput); ok {
		return "", false
	}
	return kit.InChainKey(kit.VMIn{ID: id, Out: o})
}

// C44: lists of conditions and features under any history of edits.
func TestC44_Lists(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		if g.Bool("features") {
			list(rt, g, c, func(l string) iotago.Feature { return anyFeat(g, l) }, kit.EncFeat, &featList{})
		} else {
			list(rt, g, c, func(l string) iotago.UnlockCondition { return anyUC(g, l) }, kit.EncUC, &ucList{})
		}
	})
}

func anyFeat(g *kit.G, l string) iotago.Feature {
	switch g.Int(0, 7, l+".k") {
	case 0:
		return g.SenderFeat(l)
	case 1:
		return g.IssuerFeat(l)
	case 2:
		return g.MetaFeat(l)
	case 3:
		return g.StateMetaFeat(l)
	case 4:
		return g.TagFeat(l)
	case 5:
		return g.NTFeat(l)
	case 6:
		return g.BIFeat(l)
	}
	return g.StakeFeat(l)
}

func anyUC(g *kit.G, l string) iotago.UnlockCondition {
	a := g.Addr(kit.KPlain, l)
	s := iotago.SlotIndex(g.U32(l + ".s"))
	switch g.Int(0, 6, l+".k") {
	case 0:
		return &iotago.AddressUnlockCondition{Address: a}
	case 1:
		return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: iotago.BaseToken(s)}
	case 2:
		return &iotago.TimelockUnlockCondition{Slot: s}
	case 3:
		return &iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: s}
	case 4:
		return &iotago.StateControllerAddressUnlockCondition{Address: a}
	case 5:
		return &iotago.GovernorAddressUnlockCondition{Address: a}
	}
	x := iotago.AccountAddress(g.B32(l + ".acc"))
	return &iotago.ImmutableAccountUnlockCondition{Address: &x}
}

type editable[T any] interface {
	upsert(T)
	remove(byte) bool
	sort()
	set() (map[byte]T, error)
	mustSet()
	clone() []T
	items() []T
	equal([]T) bool
	size() int
}

type featList struct {
	l iotago.Features[iotago.Feature]
}

func (f *featList) upsert(x iotago.Feature) { f.l.Upsert(x) }
func (f *featList) remove(k byte) bool      { return f.l.Remove(iotago.FeatureType(k)) }
func (f *featList) sort()                   { f.l.Sort() }
func (f *featList) set() (map[byte]iotago.Feature, error) {
	s, err := f.l.Set()
	m := map[byte]iotago.Feature{}
	for k, v := range s {
		m[byte(k)] = v
	}
	return m, err
}
func (f *featList) mustSet()                      { f.l.MustSet() }
func (f *featList) clone() []iotago.Feature       { return f.l.Clone() }
func (f *featList) items() []iotago.Feature       { return f.l }
func (f *featList) equal(o []iotago.Feature) bool { return f.l.Equal(o) }
func (f *featList) size() int                     { return f.l.Size() }

type ucList struct {
	l iotago.UnlockConditions[iotago.UnlockCondition]
}

func (f *ucList) upsert(x iotago.UnlockCondition) { f.l.Upsert(x) }
func (f *ucList) remove(k byte) bool              { return f.l.Remove(iotago.UnlockConditionType(k)) }
func (f *ucList) sort()                           { f.l.Sort() }
func (f *ucList) set() (map[byte]iotago.UnlockCondition, error) {
	s, err := f.l.Set()
	m := map[byte]iotago.UnlockCondition{}
	for k, v := range s {
		m[byte(k)] = v
	}
	return m, err
}
func (f *ucList) mustSet()                              { f.l.MustSet() }
func (f *ucList) clone() []iotago.UnlockCondition       { return f.l.Clone() }
func (f *ucList) items() []iotago.UnlockCondition       { return f.l }
func (f *ucList) equal(o []iotago.UnlockCondition) bool { return f.l.Equal(o) }
func (f *ucList) size() int                             { return f.l.Size() }

func list[T comparable](rt *rapid.T, g *kit.G, c *kit.Case, gen func(string) T, enc func(T) []byte, l editable[T]) {
	var model []T
	kind := func(x T) byte { return enc(x)[0] }
	hist := ""
	ops := g.Int(1, 12, "ops")
	for i := 0; i < ops; i++ {
		switch g.Int(0, 5, "op") {
		case 0, 1, 2:
			x := gen("x")
			hist += fmt.Sprintf("+%d", kind(x))
			l.upsert(x)
			at := -1
			for j, y := range model {
				if kind(y) == kind(x) {
					at = j
					break
				}
			}
			if at >= 0 {
				model = append(append(append([]T{}, model[:at]...), x), model[at+1:]...)
			} else {
				model = append(append([]T{}, model...), x)
			}
		case 3, 4:
			k := byte(g.Int(0, 7, "rm"))
			hist += fmt.Sprintf("-%d", k)
			at := -1
			for j, y := range model {
				if kind(y) == k {
					at = j
					break
				}
			}
			if got := l.remove(k); got != (at >= 0) {
				kit.Fail(rt, "Remove(%d) = %v after %s", k, got, hist)
			}
			if at >= 0 {
				model = append(append([]T{}, model[:at]...), model[at+1:]...)
			}
		case 5:
			hist += "s"
			l.sort()
			model = append([]T{}, model...)
			sort.SliceStable(model, func(i, j int) bool { return kind(model[i]) < kind(model[j]) })
		}
		items := l.items()
		if len(items) != len(model) {
			kit.Fail(rt, "%d elements, expected %d, after %s", len(items), len(model), hist)
		}
		size := 1
		for j := range items {
			size += len(enc(model[j]))
			if items[j] != model[j] {
				kit.Fail(rt, "element %d is %x, expected %x, after %s", j, enc(items[j]), enc(model[j]), hist)
			}
		}
		if l.size() != size {
			kit.Fail(rt, "size %d, expected %d, after %s", l.size(), size, hist)
		}
		m, err := l.set()
		if err != nil || len(m) != len(model) {
			kit.Fail(rt, "Set of %d elements: %d, %v", len(model), len(m), err)
		}
		for _, x := range model {
			if m[kind(x)] != x {
				kit.Fail(rt, "Set has another element of type %d after %s", kind(x), hist)
			}
		}
		cl := l.clone()
		if !l.equal(cl) {
			kit.Fail(rt, "a clone differs after %s", hist)
		}
		if len(cl) > 0 {
			j := g.Int(0, len(cl)-1, "eqi")
			y := gen("other")
			if same := bytes.Equal(enc(cl[j]), enc(y)); !same {
				cl[j] = y
				if l.equal(cl) {
					kit.Fail(rt, "lists are equal although element %d is %x and %x", j, enc(model[j]), enc(y))
				}
			}
			if l.equal(cl[:len(cl)-1]) {
				kit.Fail(rt, "a list equals its prefix")
			}
		}
	}
	// a list with two elements of a type is no set
	if len(model) > 0 {
		x := model[g.Int(0, len(model)-1, "dup")]
		dup := append(append([]T{}, model...), x)
		dup = rapid.Permutation(dup).Draw(rt, "dup order")
		switch d := any(dup).(type) {
		case []iotago.Feature:
			_, err := iotago.Features[iotago.Feature](d).Set()
			if !errors.Is(err, iotago.ErrNonUniqueFeatures) || kit.Panics(func() { iotago.Features[iotago.Feature](d).MustSet() }) == nil {
				kit.Fail(rt, "Set of features with a type twice: %v", err)
			}
		case []iotago.UnlockCondition:
			_, err := iotago.UnlockConditions[iotago.UnlockCondition](d).Set()
			if !errors.Is(err, iotago.ErrNonUniqueUnlockConditions) || kit.Panics(func() { iotago.UnlockConditions[iotago.UnlockCondition](d).MustSet() }) == nil {
				kit.Fail(rt, "Set of conditions with a type twice: %v", err)
			}
		}
	}
	c.Label(fmt.Sprintf("%T", l))
	if len(model) > 1 {
		c.NonTrivial(hist, fmt.Sprint(len(model)))
	}
	c.Sample("%s -> %d", hist, len(model))
}

// C44: pairs of feature sets.
func TestC44_FeatureSets(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		mk := func(l string) iotago.FeatureSet {
			s := iotago.FeatureSet{}
			for i, n := 0, g.Int(0, 4, l+".n"); i < n; i++ {
				f := anyFeat(g, l)
				s[iotago.FeatureType(kit.EncFeat(f)[0])] = f
			}
			return s
		}
		a, b := mk("a"), mk("b")
		for k, f := range a {
			switch g.Int(0, 2, "share") {
			case 0:
				b[k] = f.Clone()
			}
		}
		for k := iotago.FeatureType(0); k <= 7; k++ {
			fa, fb := a[k], b[k]
			same := (fa == nil) == (fb == nil) && (fa == nil || bytes.Equal(kit.EncFeat(fa), kit.EncFeat(fb)))
			err := iotago.FeatureUnchanged(k, a, b)
			if same != (err == nil) || err != nil && !errors.Is(err, iotago.ErrInvalidFeatureTransition) {
				kit.Fail(rt, "FeatureUnchanged(%d) = %v, the features are the same: %v", k, err, same)
			}
		}
		// every pair once
		seen := map[iotago.FeatureType]int{}
		all, err := a.EveryTuple(b, func(x, y iotago.Feature) error {
			k := iotago.FeatureType(kit.EncFeat(x)[0])
			if a[k] != x || b[k] != y {
				return errors.New("not a pair")
			}
			seen[k]++
			return nil
		})
		want, n := true, 0
		for k := range a {
			if b[k] == nil {
				want = false
			} else {
				n++
			}
		}
		if err != nil || all != want || len(seen) != n {
			kit.Fail(rt, "EveryTuple: %v, %v, %d pairs; expected %v with %d pairs", all, err, len(seen), want, n)
		}
		for k, m := range seen {
			if m != 1 {
				kit.Fail(rt, "EveryTuple calls type %d %d times", k, m)
			}
		}
		if n > 0 {
			stop := errors.New("stop")
			calls := 0
			at := g.Int(1, n, "stop at")
			ok, err := a.EveryTuple(b, func(iotago.Feature, iotago.Feature) error {
				if calls++; calls == at {
					return stop
				}
				return nil
			})
			if ok || !errors.Is(err, stop) || calls != at {
				kit.Fail(rt, "EveryTuple stopped by the function at call %d: %v, %v after %d calls", at, ok, err, calls)
			}
		}
		c.Label("pairs")
		if n > 0 {
			var x []byte
			for k := iotago.FeatureType(0); k <= 7; k++ {
				if a[k] != nil {
					x = append(x, kit.EncFeat(a[k])...)
				}
				if b[k] != nil {
					x = append(x, kit.EncFeat(b[k])...)
				}
			}
			c.NonTrivial(x)
		}
	})
}

type num int

func (a num) Compare(b num) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// C44: the slice validators visit every element and accept exactly strictly increasing sequences.
func TestC44_Validators(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		xs := make([]num, g.Int(0, 12, "n"))
		for i := range xs {
			switch {
			case i == 0 || g.Rare(12, "any"):
				xs[i] = num(g.Int(-5, 20, "x"))
			case g.Rare(12, "same"):
				xs[i] = xs[i-1]
			default:
				xs[i] = xs[i-1] + num(g.Int(1, 3, "d"))
			}
		}
		var want error
		for i := 1; i < len(xs) && want == nil; i++ {
			switch {
			case xs[i-1] > xs[i]:
				want = iotago.ErrArrayValidationOrderViolatesLexicalOrder
			case xs[i-1] == xs[i]:
				want = iotago.ErrArrayValidationViolatesUniqueness
			}
		}
		same := func(err error, what string) {
			if (err == nil) != (want == nil) || want != nil && !errors.Is(err, want) {
				kit.Fail(rt, "%s of %v gives %v, expected %v", what, xs, err, want)
			}
		}
		same(iotago.SliceValidator(xs, iotago.LexicalOrderAndUniquenessValidator[num]()), "SliceValidator")
		var first, second []num
		same(iotago.SliceValidatorMapper(xs, func(x num) num { return x + 7 }, func(i int, x num) error {
			first = append(first, x-7)
			if i != len(first)-1 {
				return fmt.Errorf("element %d is the %d.", i, len(first))
			}
			return nil
		}, iotago.LexicalOrderAndUniquenessValidator[num](), func(i int, x num) error { second = append(second, x-7); return nil }), "SliceValidatorMapper")
		if want == nil && (!reflect.DeepEqual(append([]num{}, first...), append([]num{}, xs...)) || !reflect.DeepEqual(append([]num{}, second...), append([]num{}, xs...))) {
			kit.Fail(rt, "validators see %v and %v of %v", first, second, xs)
		}
		if want != nil && len(second) != len(first)-1 {
			kit.Fail(rt, "validation goes on after an error: %v, %v", first, second)
		}
		c.Label(fmt.Sprint(want))
		if len(xs) > 2 {
			c.NonTrivial(fmt.Sprint(xs))
		}
	})
}
