package t_build

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"testing"

	stded "crypto/ed25519"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// bldr is one transaction builder program: what is asked for and in which order.
type bldr struct {
	s      *kit.Scn
	v      *kit.VMCase
	outs   []iotago.Output // what is asked for; the builder gets copies
	allot  map[iotago.AccountID]uint64
	order  []int // of the builder calls
	splits map[iotago.AccountID]uint64
	signer iotago.AddressSigner
	clone  int // before which call to go on with a clone
}

func restrictedMana(a iotago.Address) bool {
	r, ok := a.(*iotago.RestrictedAddress)
	return ok && (len(r.AllowedCapabilities) == 0 || r.AllowedCapabilities[0]>>1&1 == 0)
}

func plain(a iotago.Address) iotago.Address {
	if r, ok := a.(*iotago.RestrictedAddress); ok {
		return r.Address
	}
	return a
}

// run makes the builder calls up to the mana handling.
func (b *bldr) run() *builder.TransactionBuilder {
	tx := b.v.Tx.Transaction
	x := builder.NewTransactionBuilder(b.v.E.API(), b.signer)
	var ids []iotago.AccountID
	for id := range b.allot {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	calls := []func(){
		func() {
			for i, in := range b.v.In {
				x.AddInput(&builder.TxInput{UnlockTarget: b.v.Owner(i), InputID: in.ID, Input: in.Out})
			}
		},
		func() {
			for _, o := range b.outs {
				x.AddOutput(o.Clone())
			}
		},
		func() { x.SetCreationSlot(tx.CreationSlot) },
		func() {
			for i := len(tx.TransactionEssence.ContextInputs) - 1; i >= 0; i-- {
				switch c := tx.TransactionEssence.ContextInputs[i].(type) {
				case *iotago.CommitmentInput:
					x.AddCommitmentInput(c)
				case *iotago.BlockIssuanceCreditInput:
					x.AddBlockIssuanceCreditInput(c)
				case *iotago.RewardInput:
					x.AddRewardInput(c, iotago.Mana(b.v.Rewards[int(c.Index)]))
				}
			}
		},
		func() {
			for _, id := range ids {
				x.IncreaseAllotment(id, iotago.Mana(b.splits[id]))
			}
			for i := range ids {
				id := ids[len(ids)-1-i]
				x.IncreaseAllotment(id, iotago.Mana(b.allot[id]-b.splits[id]))
			}
		},
		func() { x.WithTransactionCapabilities(tx.Capabilities) },
		func() {
			if p, ok := tx.Payload.(*iotago.TaggedData); ok {
				x.AddTaggedDataPayload(p)
			}
		},
	}
	for i, c := range b.order {
		if i == b.clone {
			old := x
			x = old.Clone()
			// what happens to the original does not matter to the clone
			old.IncreaseAllotment(iotago.AccountID{9}, 7)
			for _, id := range ids {
				old.IncreaseAllotment(id, 3)
			}
			if len(b.v.In) > 0 {
				old.AddInput(&builder.TxInput{UnlockTarget: b.v.Owner(0), InputID: iotago.OutputID{5}, Input: b.v.In[0].Out})
			}
			old.AddOutput(b.outs[0].Clone()).SetCreationSlot(1).WithTransactionCapabilities(iotago.TransactionCapabilitiesBitMask{3})
		}
		calls[c]()
	}
	return x
}

// bound and unbound mana of the inputs.
func (b *bldr) mana() (map[iotago.AccountID]*big.Int, *big.Int) {
	bound, unbound := map[iotago.AccountID]*big.Int{}, new(big.Int)
	for _, in := range b.v.In {
		m := b.v.ManaOf(in)
		if k, ok := kit.InChainKey(in); ok && k[0] == 'A' {
			bound[iotago.AccountID([]byte(k[1:]))] = m
		} else {
			unbound.Add(unbound, m)
		}
	}
	for _, r := range b.v.Rewards {
		unbound.Add(unbound, new(big.Int).SetUint64(r))
	}
	return bound, unbound
}

// boundTo tells the account an output's mana is bound to.
func (b *bldr) boundTo(o iotago.Output) iotago.AccountID {
	if a, ok := o.(*iotago.AccountOutput); ok {
		return a.AccountID
	}
	ucs, _, _ := kit.Parts(o)
	var acc iotago.AccountID
	locked := false
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			if a, ok := u.Address.(*iotago.AccountAddress); ok {
				acc = iotago.AccountID(*a)
			}
		case *iotago.TimelockUnlockCondition:
			locked = uint64(u.Slot) > uint64(b.v.Tx.Transaction.CreationSlot)+2*uint64(b.v.E.MaxCA)
		}
	}
	if !locked {
		return iotago.AccountID{}
	}
	return acc
}

// left subtracts what outputs and allotments take, first from their account and then from the unbound mana.
func (b *bldr) left(allot map[iotago.AccountID]uint64) (bound map[iotago.AccountID]*big.Int, unbound *big.Int) {
	bound, unbound = b.mana()
	take := func(a iotago.AccountID, m uint64) {
		x := new(big.Int).SetUint64(m)
		if have := bound[a]; have != nil {
			if have.Cmp(x) >= 0 {
				have.Sub(have, x)
				return
			}
			x.Sub(x, have)
			have.SetInt64(0)
		}
		unbound.Sub(unbound, x)
	}
	for _, o := range b.outs {
		take(b.boundTo(o), kit.ManaStored(o))
	}
	for a, m := range allot {
		take(a, m)
	}
	return
}

var foci = []string{"C15", "C16", "C17", "C18", "C20", "C21", "C22", "C22", "C23", "C24", "C25"}

func TestC27(t *testing.T) {
	kit.Check(t, 1500, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, foci[rapid.IntRange(0, len(foci)-1).Draw(rt, "focus")])
		s.NoDeviations()
		s.NoMulti = s.Int(0, 9, "multi") > 0
		v := s.Build()
		if e := kit.SignedTxErrs(v.E.Spec, v.Tx); len(e) > 0 || len(v.Run()) > 0 || v.Commit == nil && len(v.Rewards) > 0 {
			c.Label("template not valid")
			return
		}
		tx := v.Tx.Transaction
		b := &bldr{s: s, v: v, allot: map[iotago.AccountID]uint64{}, splits: map[iotago.AccountID]uint64{}, clone: -1}
		b.order = rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6}).Draw(rt, "order")
		if s.Rare(4, "clone") {
			b.clone = s.Int(0, len(b.order)-1, "clone at")
		}
		idx := -1
		for i, o := range tx.Outputs {
			o := o.Clone()
			b.outs = append(b.outs, o)
			// around the slot up to which mana is locked for the builder
			ucs, _, _ := kit.Parts(o)
			var lock *iotago.TimelockUnlockCondition
			acc := false
			for _, u := range ucs {
				switch u := u.(type) {
				case *iotago.AddressUnlockCondition:
					_, acc = u.Address.(*iotago.AccountAddress)
				case *iotago.TimelockUnlockCondition:
					lock = u
				}
			}
			if lock != nil && acc && s.Bool("lock longer") {
				if x := uint64(tx.CreationSlot) + 2*uint64(v.E.MaxCA) + uint64(s.Int(0, 3, "lock")); x > uint64(lock.Slot) && x <= 1<<32-1 {
					lock.Slot = iotago.SlotIndex(x)
				}
				if s.Bool("store in locked") {
					idx = i
				}
			}
		}
		for _, a := range tx.Allotments {
			b.allot[a.AccountID] = uint64(a.Mana)
		}
		// keys
		need := map[[32]byte]bool{}
		unsupported := false
		for i := range v.In {
			switch a := plain(v.Owner(i)).(type) {
			case *iotago.Ed25519Address:
				need[*a] = true
			case *iotago.ImplicitAccountCreationAddress:
				need[*a] = true
			case *iotago.MultiAddress:
				unsupported = true
			}
		}
		missing := false
		var privs []stded.PrivateKey
		var maps []iotago.AddressKeys
		drop := -1
		if s.Rare(12, "missing key") {
			drop = s.Int(0, len(kit.Keys())-1, "dropped")
		}
		for i, k := range kit.Keys() {
			if i == drop {
				missing = need[k.Hash]
				continue
			}
			privs = append(privs, k.Priv)
			maps = append(maps, iotago.NewAddressKeysForEd25519Address(k.Addr, k.Priv), iotago.NewAddressKeysForImplicitAccountCreationAddress(k.Imp, k.Priv))
		}
		if s.Bool("signer") {
			b.signer = iotago.NewInMemoryAddressSigner(maps...)
		} else {
			b.signer = iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(privs...)
		}
		if s.Rare(60, "no signer") {
			b.signer, missing = nil, true
		}
		// mana handling
		mode := s.Int(0, 4, "mode")
		modes := []string{"explicit", "allot all", "store and allot bound", "allot minimum and store", "allot bound"}
		if mode != 0 {
			for _, o := range b.outs {
				if m := kit.ManaStored(o); m > 0 {
					kit.SetMana(o, []uint64{0, m, s.U64Max(m, "stored")}[s.Int(0, 2, "stored kind")])
				}
			}
			for _, a := range tx.Allotments {
				if m := uint64(a.Mana); s.Bool("keep allotment") {
					b.allot[a.AccountID] = 1 + s.U64Max(m-1, "allotted")
				} else {
					delete(b.allot, a.AccountID)
				}
			}
			if s.Rare(12, "rich") {
				// up to and beyond what can be summed up
				x := *v
				x.In = append([]kit.VMIn{}, v.In...)
				i := s.Int(0, len(x.In)-1, "rich input")
				o := x.In[i].Out.Clone()
				if _, ok := kit.ManaHolder(o); ok && (len(v.Rewards) == 0 || s.Bool("rich input mana")) {
					kit.SetMana(o, s.U64("input mana"))
					x.In[i].Out = o
				} else {
					x.Rewards = map[int]uint64{}
					for i := range v.In {
						if _, ok := v.Rewards[i]; ok {
							x.Rewards[i] = s.U64("rewards")
						}
					}
				}
				v, b.v = &x, &x
				// more than the network's maximum is out of domain, unless something the builder counts overflows
				_, unbound := b.mana()
				all := new(big.Int)
				for _, in := range v.In {
					s, p := v.ManaParts(in)
					all.Add(all, s).Add(all, p)
				}
				if m := v.ManaIn(); m.Cmp(v.E.Spec.MaxMana()) > 0 && unbound.BitLen() <= 64 && all.BitLen() <= 64 {
					c.Label("more mana than there can be")
					return
				}
			}
			if s.Rare(15, "too much") {
				kit.SetMana(b.outs[s.Int(0, len(b.outs)-1, "which")], s.U64("much"))
			}
		}
		for a, m := range b.allot {
			b.splits[a] = s.U64Max(m, "split")
		}
		x := b.run()
		if s.Rare(4, "account") {
			b.account(rt, x)
		}
		if s.Rare(10, "built before") {
			_, _ = x.Clone().Build()
		}
		overflow := len(b.allot) > 0 && s.Rare(25, "allotment overflow")
		if overflow {
			for _, al := range tx.Allotments {
				a := al.AccountID
				if m := b.allot[a]; m > 0 {
					x.IncreaseAllotment(a, iotago.Mana(^uint64(0)-m+1+s.U64Max(m-1, "beyond")))
					break
				}
			}
		}
		slot := tx.CreationSlot
		issuer := s.AccountFor(v, "issuer")
		want := map[iotago.AccountID]uint64{}
		for a, m := range b.allot {
			want[a] = m
		}
		bad := "" // why building must fail
		plus := func(a iotago.AccountID, m *big.Int) {
			if m.Sign() > 0 {
				want[a] += m.Uint64()
			}
		}
		rmc, minReq := uint64(0), uint64(0)
		locked := idx >= 0
		idx = max(idx, 0)
		for i, o := range b.outs {
			if locked {
				break
			}
			if _, ok := kit.ManaHolder(o); ok && s.Rare(len(b.outs), fmt.Sprintf("store in %d", i)) {
				idx = i
			}
		}
		if s.Rare(30, "odd store index") {
			idx = s.Int(0, len(b.outs), "odd idx")
		}
		hasImplicit := false
		for _, in := range v.In {
			if o, ok := in.Out.(*iotago.BasicOutput); ok {
				_, imp := o.UnlockConditionSet().Address().Address.(*iotago.ImplicitAccountCreationAddress)
				hasImplicit = hasImplicit || imp
			}
		}
		bound, unbound := b.left(b.allot)
		over := v.ManaIn().BitLen() > 64
		check := func() bool {
			if unbound.Sign() < 0 {
				bad = "not enough mana"
			}
			return bad == ""
		}
		storable := func() (iotago.AccountID, bool) {
			if idx >= len(b.outs) {
				bad = "no such output"
				return iotago.AccountID{}, false
			}
			if _, ok := kit.ManaHolder(b.outs[idx]); !ok {
				bad = "output without mana"
				return iotago.AccountID{}, false
			}
			return b.boundTo(b.outs[idx]), true
		}
		allotBound := func(except iotago.AccountID) {
			for a, m := range bound {
				if a != except {
					plus(a, m)
				}
			}
		}
		store := func(to iotago.AccountID) {
			m := new(big.Int).Set(unbound)
			if to != (iotago.AccountID{}) && bound[to] != nil {
				m.Add(m, bound[to])
			}
			kit.SetMana(b.outs[idx], kit.ManaStored(b.outs[idx])+m.Uint64())
		}
		exact := true
		switch mode {
		case 0:
			exact = false
		case 1:
			minReq = []uint64{0, 1, s.U64("min")}[s.Int(0, 2, "min kind")]
			x.AllotAllMana(slot, issuer, iotago.Mana(minReq))
			if check() {
				got := new(big.Int).Set(unbound)
				if bound[issuer] != nil {
					got.Add(got, bound[issuer])
				}
				if got.Cmp(new(big.Int).SetUint64(minReq)) < 0 {
					bad = "minimum not reached"
				} else {
					allotBound(iotago.AccountID{})
					plus(issuer, unbound)
				}
			}
		case 2:
			x.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(slot, idx)
			if to, ok := storable(); ok && check() {
				allotBound(to)
				store(to)
			}
		case 3:
			rmc = []uint64{0, 1, s.U64Max(1000, "rmc small"), s.U64Max(1<<40, "rmc"), s.U64("rmc any")}[s.Int(0, 4, "rmc kind")]
			x.AllotMinRequiredManaAndStoreRemainingManaInOutput(slot, iotago.Mana(rmc), issuer, idx)
			to, ok := storable()
			if !ok || !check() || unsupported || missing || overflow || over {
				break
			}
			allotBound(to)
			// the price of a block with a transaction of this shape
			probe := *b
			probe.allot = map[iotago.AccountID]uint64{}
			for a := range want {
				probe.allot[a] = 1
			}
			probe.allot[issuer] = 1
			probe.splits = probe.allot
			ptx, err := probe.run().Build()
			kit.NoErr(rt, err, "building a transaction with explicit allotments: %s", v)
			cost := cost(v, ptx, rmc)
			if cost.BitLen() > 64 {
				bad = "block too expensive"
				break
			}
			if issuer != to && bound[issuer] != nil {
				cost.Sub(cost, bound[issuer])
			}
			if cost.Sign() > 0 {
				if new(big.Int).Add(cost, new(big.Int).SetUint64(want[issuer])).BitLen() > 64 {
					bad = "allotment overflow"
					break
				}
				want[issuer] += cost.Uint64()
			}
			bound, unbound = b.left(want)
			if check() {
				store(to)
			}
		case 4:
			x.AllotRemainingAccountBoundMana(slot, nil)
			exact = false
			if check() {
				allotBound(iotago.AccountID{})
			}
		}
		what := fmt.Sprintf("mode %s (issuer %x, output %d, rmc %d, minimum %d), allotments %v: %s", modes[mode], issuer, idx, rmc, minReq, b.allot, v)
		if over && mode != 0 {
			bad = "mana overflow"
		}
		var st *iotago.SignedTransaction
		var err error
		var wrong string
		how := s.Int(0, 3, "finish")
		if p := kit.Panics(func() { st, wrong, err = b.finish(x, how) }); p != nil {
			kit.Fail(rt, "building panics: %v: %s", p, what)
		}
		if wrong != "" {
			kit.Fail(rt, "%s: %s", wrong, what)
		}
		switch {
		case overflow:
			bad = "allotment overflow"
		case unsupported:
			bad = "owner not supported"
		case missing:
			bad = "key missing"
		}
		if bad != "" {
			if err == nil {
				kit.Fail(rt, "building succeeds, expected failure (%s): %s", bad, what)
			}
			c.Label("refused: " + bad)
			c.NonTrivial(kit.EncTx(tx), mode, idx, rmc, minReq, fmt.Sprint(b.allot))
			return
		}
		kit.NoErr(rt, err, "building fails: %s", what)
		c.Label("built: " + modes[mode])
		// contents
		exp := *tx
		ess := *tx.TransactionEssence
		exp.TransactionEssence = &ess
		exp.Outputs = nil
		for _, o := range b.outs {
			exp.Outputs = append(exp.Outputs, o)
		}
		ess.Allotments = nil
		for a, m := range want {
			if m > 0 {
				ess.Allotments = append(ess.Allotments, &iotago.Allotment{AccountID: a, Mana: iotago.Mana(m)})
			}
		}
		sort.Slice(ess.Allotments, func(i, j int) bool {
			return bytes.Compare(ess.Allotments[i].AccountID[:], ess.Allotments[j].AccountID[:]) < 0
		})
		if got, want := kit.EncTx(st.Transaction), kit.EncTx(&exp); !bytes.Equal(got, want) {
			kit.Fail(rt, "built transaction\n%x, asked for\n%x: %s", got, want, what)
		}
		// signatures
		seen := map[[32]byte]bool{}
		for _, u := range st.Unlocks {
			if su, ok := u.(*iotago.SignatureUnlock); ok {
				e := su.Signature.(*iotago.Ed25519Signature)
				h := kit.Blake(e.PublicKey[:])
				if seen[h] || !need[h] {
					kit.Fail(rt, "signature of key %x twice or not needed: %s", e.PublicKey, what)
				}
				seen[h] = true
			}
		}
		if len(seen) != len(need) {
			kit.Fail(rt, "signed by %d of %d keys: %s", len(seen), len(need), what)
		}
		// validity
		w := *v
		w.Tx = st
		if len(want) > 0 {
			for a, m := range want {
				c.Label("allotments")
				_, _ = a, m
				break
			}
		}
		if e := kit.SignedTxErrs(v.E.Spec, st); len(e) > 0 {
			kit.Fail(rt, "built transaction is not well-formed (%v): %s", e, what)
		}
		raw := kit.EncSignedTx(st)
		if _, err := v.E.API().Decode(raw, new(iotago.SignedTransaction)); err != nil {
			kit.Fail(rt, "built transaction is not accepted by the decoder (%v): %s", err, what)
		}
		if exact && w.ManaOut().Cmp(v.ManaIn()) != 0 {
			kit.Fail(rt, "mana out %v, available %v: %s", w.ManaOut(), v.ManaIn(), what)
		}
		if exact || mode == 0 {
			vs := w.Run()
			r := w.Execute()
			if len(vs) > 0 || r.Err() != nil || r.Panic != nil {
				kit.Fail(rt, "built transaction is not executed (%v, %v): %s", kit.Rules(vs), r.Err(), what)
			}
		}
		if mode == 3 {
			var got uint64
			for _, a := range st.Transaction.Allotments {
				if a.AccountID == issuer {
					got = uint64(a.Mana)
				}
			}
			if cost(v, st, rmc).Cmp(new(big.Int).SetUint64(got)) > 0 {
				kit.Fail(rt, "allotted %d to the issuer, the block costs %v: %s", got, cost(v, st, rmc), what)
			}
		}
		if hasImplicit {
			c.Label("implicit account consumed")
		}
		c.NonTrivial(raw, mode, idx, rmc, minReq, fmt.Sprint(b.allot))
		c.Sample("%s: %v", modes[mode], s.Parts)
	})
}

// account compares what the builder counts with the reference.
func (b *bldr) account(rt *rapid.T, x *builder.TransactionBuilder) {
	slot := b.v.Tx.Transaction.CreationSlot
	bound, unbound := b.mana()
	var sum [5]*big.Int // stored, potential, unbound stored, unbound potential, rewards
	for i := range sum {
		sum[i] = new(big.Int)
	}
	for _, in := range b.v.In {
		s, p := b.v.ManaParts(in)
		sum[0].Add(sum[0], s)
		sum[1].Add(sum[1], p)
		if k, ok := kit.InChainKey(in); !ok || k[0] != 'A' {
			sum[2].Add(sum[2], s)
			sum[3].Add(sum[3], p)
		}
	}
	for _, r := range b.v.Rewards {
		sum[4].Add(sum[4], new(big.Int).SetUint64(r))
	}
	same := func(what string, r *builder.AvailableManaResult, bound map[iotago.AccountID]*big.Int, unbound *big.Int) {
		for i, m := range []iotago.Mana{r.StoredMana, r.PotentialMana, r.UnboundStoredMana, r.UnboundPotentialMana, r.Rewards} {
			if sum[i].Cmp(new(big.Int).SetUint64(uint64(m))) != 0 {
				kit.Fail(rt, "%s: %d-th sum is %d, want %v: %s", what, i, m, sum[i], b.v)
			}
		}
		if all := new(big.Int).Add(sum[0], sum[1]); all.Cmp(new(big.Int).SetUint64(uint64(r.TotalMana))) != 0 {
			kit.Fail(rt, "%s: total %d, want %v: %s", what, r.TotalMana, all, b.v)
		}
		if unbound.Cmp(new(big.Int).SetUint64(uint64(r.UnboundMana))) != 0 || len(bound) != len(r.AccountBoundMana) {
			kit.Fail(rt, "%s: unbound %d and %d accounts, want %v and %d: %s", what, r.UnboundMana, len(r.AccountBoundMana), unbound, len(bound), b.v)
		}
		for a, m := range bound {
			if got, ok := r.AccountBoundMana[a]; !ok || m.Cmp(new(big.Int).SetUint64(uint64(got))) != 0 {
				kit.Fail(rt, "%s: %d bound to %s, want %v: %s", what, got, a.ToHex(), m, b.v)
			}
		}
	}
	if sum[4].BitLen() > 64 {
		return // AddRewardInput already recorded the error, and the count went no further
	}
	r, err := x.CalculateAvailableManaInputs(slot)
	if fits := b.v.ManaIn().BitLen() <= 64; fits != (err == nil) && (fits || unbound.BitLen() > 64) {
		kit.Fail(rt, "counting the mana of the inputs (%v): %v: %s", b.v.ManaIn(), err, b.v)
	} else if err != nil || !fits {
		return
	}
	same("inputs", r, bound, unbound)
	bound, unbound = b.left(b.allot)
	r, err = x.CalculateAvailableManaRemaining(slot)
	if (unbound.Sign() < 0) != (err != nil) {
		kit.Fail(rt, "counting what remains of the mana (%v): %v: %s", unbound, err, b.v)
	}
	if err == nil {
		same("remainder", r, bound, unbound)
	}
}

// finish builds, directly or as the payload of a block.
func (b *bldr) finish(x *builder.TransactionBuilder, how int) (st *iotago.SignedTransaction, wrong string, err error) {
	if how <= 1 {
		st, err = x.Build()
		return
	}
	n := 0
	var fn builder.TransactionFunc
	if how == 2 {
		fn = func(p *iotago.SignedTransaction) { st, n = p, n+1 }
	}
	bb := x.BuildAndSwapToBlockBuilder(fn).ProtocolVersion(3).StrongParents(iotago.BlockIDs{{1}})
	blk, err := bb.Sign(iotago.AccountID{1}, kit.Keys()[0].Priv).Build()
	if err != nil {
		if n != 0 || blk != nil {
			wrong = fmt.Sprintf("%d transactions handed out and block %v, although building failed: %v", n, blk != nil, err)
		}
		return nil, wrong, err
	}
	p, ok := blk.Body.(*iotago.BasicBlockBody).Payload.(*iotago.SignedTransaction)
	switch {
	case !ok:
		wrong = fmt.Sprintf("the block carries %T", blk.Body.(*iotago.BasicBlockBody).Payload)
	case fn != nil && (n != 1 || st == nil || !bytes.Equal(kit.EncSignedTx(p), kit.EncSignedTx(st))):
		wrong = fmt.Sprintf("%d transactions handed out, the block carries another", n)
	}
	return p, wrong, nil
}

// cost of a basic block carrying the transaction.
func cost(v *kit.VMCase, st *iotago.SignedTransaction, rmc uint64) *big.Int {
	w := kit.RefWork{W: v.E.WS}
	b := &iotago.Block{Body: &iotago.BasicBlockBody{Payload: st}}
	return new(big.Int).Mul(w.Block(b), new(big.Int).SetUint64(rmc))
}
