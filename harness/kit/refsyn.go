package kit

import (
	"bytes"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Reference statement of the syntactic rules. Every function returns the names of the rules broken (nil: well-formed).

var ucCode = func(u iotago.UnlockCondition) int {
	switch u.(type) {
	case *iotago.AddressUnlockCondition:
		return 0
	case *iotago.StorageDepositReturnUnlockCondition:
		return 1
	case *iotago.TimelockUnlockCondition:
		return 2
	case *iotago.ExpirationUnlockCondition:
		return 3
	case *iotago.StateControllerAddressUnlockCondition:
		return 4
	case *iotago.GovernorAddressUnlockCondition:
		return 5
	case *iotago.ImmutableAccountUnlockCondition:
		return 6
	}
	return -1
}

func featCode(f iotago.Feature) int {
	switch f.(type) {
	case *iotago.SenderFeature:
		return 0
	case *iotago.IssuerFeature:
		return 1
	case *iotago.MetadataFeature:
		return 2
	case *iotago.StateMetadataFeature:
		return 3
	case *iotago.TagFeature:
		return 4
	case *iotago.NativeTokenFeature:
		return 5
	case *iotago.BlockIssuerFeature:
		return 6
	case *iotago.StakingFeature:
		return 7
	}
	return -1
}

type partRule struct{ uc, ucMust, feat, imm []int }

func ruleOf(o iotago.Output) partRule {
	switch o.(type) {
	case *iotago.BasicOutput:
		return partRule{[]int{0, 1, 2, 3}, []int{0}, []int{0, 2, 4, 5}, nil}
	case *iotago.AccountOutput:
		return partRule{[]int{0}, []int{0}, []int{0, 2, 6, 7}, []int{1, 2}}
	case *iotago.AnchorOutput:
		return partRule{[]int{4, 5}, []int{4, 5}, []int{2, 3}, []int{1, 2}}
	case *iotago.FoundryOutput:
		return partRule{[]int{6}, []int{6}, []int{2, 5}, []int{2}}
	case *iotago.NFTOutput:
		return partRule{[]int{0, 1, 2, 3}, []int{0}, []int{0, 2, 4}, []int{1, 2}}
	}
	return partRule{[]int{0}, []int{0}, nil, nil}
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func orderedSubset(name string, codes, allowed, must []int) (e []string) {
	for i, c := range codes {
		if !has(allowed, c) {
			e = append(e, name+" of a type the output does not permit")
		}
		if i > 0 && codes[i-1] >= c {
			e = append(e, name+" not sorted and unique")
		}
	}
	for _, m := range must {
		if !has(codes, m) {
			e = append(e, name+" missing")
		}
	}
	return
}

func metaErrs(name string, m map[string][]byte) (e []string) {
	if len(m) < 1 || len(m) > 255 {
		e = append(e, name+" entry count")
	}
	size := 1
	for k, v := range m {
		if len(k) > 255 || len(v) > 65535 {
			e = append(e, name+" entry length")
		}
		for _, c := range []byte(k) {
			if c < 33 || c > 126 {
				e = append(e, name+" key not printable ASCII")
			}
		}
		size += 1 + len(k) + 2 + len(v)
	}
	if size > 8192 {
		e = append(e, name+" larger than 8192")
	}
	return
}

// AddrErrs is the set of broken address rules.
func AddrErrs(a iotago.Address) (e []string) {
	switch a := a.(type) {
	case *iotago.MultiAddress:
		if len(a.Addresses) < 2 || len(a.Addresses) > 10 {
			e = append(e, "multi address member count")
		}
		sum := 0
		for i, m := range a.Addresses {
			switch m.Address.(type) {
			case *iotago.Ed25519Address, *iotago.AccountAddress, *iotago.NFTAddress, *iotago.AnchorAddress:
			default:
				e = append(e, "multi address member type")
			}
			if m.Weight == 0 {
				e = append(e, "multi address weight zero")
			}
			sum += int(m.Weight)
			if i > 0 && bytes.Compare(EncAddr(a.Addresses[i-1].Address), EncAddr(m.Address)) >= 0 {
				e = append(e, "multi address members not sorted and unique")
			}
		}
		if a.Threshold < 1 || int(a.Threshold) > sum {
			e = append(e, "multi address threshold")
		}
	case *iotago.RestrictedAddress:
		switch a.Address.(type) {
		case *iotago.Ed25519Address, *iotago.AccountAddress, *iotago.NFTAddress, *iotago.AnchorAddress, *iotago.MultiAddress:
		default:
			e = append(e, "restricted address wraps a forbidden type")
		}
		e = append(e, AddrErrs(a.Address)...)
		n := len(a.AllowedCapabilities)
		if n > 2 {
			e = append(e, "restricted address capability length")
		}
		if n > 0 && a.AllowedCapabilities[n-1] == 0 {
			e = append(e, "restricted address capabilities not minimal")
		}
	}
	return
}

func isImplicit(a iotago.Address) bool {
	_, ok := a.(*iotago.ImplicitAccountCreationAddress)
	return ok
}

// FreshSelfOwned tells about an output with a zero ID owned by the zero chain address, for which no rule is stated.
func FreshSelfOwned(o iotago.Output) bool {
	if a, ok := o.(*iotago.AccountOutput); ok && a.AccountID == (iotago.AccountID{}) {
		for _, x := range AllAddrs(o) {
			if y, ok := x.(*iotago.AccountAddress); ok && *y == (iotago.AccountAddress{}) {
				return true
			}
		}
	}
	return false
}

// OutputErrs lists the output rules broken by a single output.
func OutputErrs(s Spec, o iotago.Output) (e []string) {
	bad := func(c bool, n string) {
		if c {
			e = append(e, n)
		}
	}
	ucs, fs, ims := Parts(o)
	r := ruleOf(o)
	var uc, fc, ic []int
	for _, u := range ucs {
		uc = append(uc, ucCode(u))
	}
	for _, f := range fs {
		fc = append(fc, featCode(f))
	}
	for _, f := range ims {
		ic = append(ic, featCode(f))
	}
	e = append(e, orderedSubset("unlock condition", uc, r.uc, r.ucMust)...)
	e = append(e, orderedSubset("feature", fc, r.feat, nil)...)
	e = append(e, orderedSubset("immutable feature", ic, r.imm, nil)...)
	if len(e) > 0 {
		return // the rest presumes the shape
	}
	for _, a := range AllAddrs(o) {
		e = append(e, AddrErrs(a)...)
	}
	var amount iotago.BaseToken
	switch o := o.(type) {
	case *iotago.BasicOutput:
		amount = o.Amount
	case *iotago.AccountOutput:
		amount = o.Amount
	case *iotago.AnchorOutput:
		amount = o.Amount
	case *iotago.FoundryOutput:
		amount = o.Amount
	case *iotago.NFTOutput:
		amount = o.Amount
	case *iotago.DelegationOutput:
		amount = o.Amount
	}
	amt := new(big.Int).SetUint64(uint64(amount))
	bad(amount == 0, "amount zero")
	bad(amt.Cmp(RefMinDeposit(s, o)) < 0, "below minimum storage deposit")
	_, basic := o.(*iotago.BasicOutput)
	var bif *iotago.BlockIssuerFeature
	var stk *iotago.StakingFeature
	var nt *iotago.NativeTokenFeature
	for _, f := range append(append([]iotago.Feature{}, fs...), ims...) {
		switch f := f.(type) {
		case *iotago.MetadataFeature:
			m := map[string][]byte{}
			for k, v := range f.Entries {
				m[string(k)] = v
			}
			e = append(e, metaErrs("metadata", m)...)
		case *iotago.StateMetadataFeature:
			m := map[string][]byte{}
			for k, v := range f.Entries {
				m[string(k)] = v
			}
			e = append(e, metaErrs("state metadata", m)...)
		case *iotago.TagFeature:
			bad(len(f.Tag) < 1 || len(f.Tag) > 64, "tag length")
		case *iotago.NativeTokenFeature:
			nt = f
			bad(f.Amount.Sign() == 0, "native token amount zero")
		case *iotago.BlockIssuerFeature:
			bif = f
			bad(len(f.BlockIssuerKeys) < 1 || len(f.BlockIssuerKeys) > 128, "block issuer key count")
			for i := 1; i < len(f.BlockIssuerKeys); i++ {
				a, b := f.BlockIssuerKeys[i-1].(*iotago.Ed25519PublicKeyHashBlockIssuerKey), f.BlockIssuerKeys[i].(*iotago.Ed25519PublicKeyHashBlockIssuerKey)
				bad(bytes.Compare(a.PublicKeyHash[:], b.PublicKeyHash[:]) >= 0, "block issuer keys not sorted and unique")
			}
		case *iotago.StakingFeature:
			stk = f
		}
	}
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			bad(!basic && isImplicit(u.Address), "implicit account creation address outside a basic output")
		case *iotago.StorageDepositReturnUnlockCondition:
			bad(isImplicit(u.ReturnAddress), "implicit account creation address as return address")
			x := new(big.Int).SetUint64(uint64(u.Amount))
			bad(x.Cmp(RefMinReturn(s, u.ReturnAddress)) < 0, "storage deposit return below minimum")
			bad(u.Amount > amount, "storage deposit return above amount")
		case *iotago.TimelockUnlockCondition:
			bad(u.Slot == 0, "timelock slot zero")
		case *iotago.ExpirationUnlockCondition:
			bad(isImplicit(u.ReturnAddress), "implicit account creation address as return address")
			bad(u.Slot == 0, "expiration slot zero")
		case *iotago.StateControllerAddressUnlockCondition:
			bad(isImplicit(u.Address), "implicit account creation address as state controller")
		case *iotago.GovernorAddressUnlockCondition:
			bad(isImplicit(u.Address), "implicit account creation address as governor")
		}
	}
	need := RequiredCaps(o)
	for _, a := range capAddrs(o) {
		switch a := a.(type) {
		case *iotago.RestrictedAddress:
			bad(need&^capsOf(a) != 0, "address restriction")
		case *iotago.ImplicitAccountCreationAddress:
			bad(need&^3 != 0, "implicit account creation address restriction")
		}
	}
	switch o := o.(type) {
	case *iotago.AccountOutput:
		bad(o.AccountID == (iotago.AccountID{}) && o.FoundryCounter != 0, "new account with foundries")
		if a, ok := ucs[0].(*iotago.AddressUnlockCondition).Address.(*iotago.AccountAddress); ok {
			bad([32]byte(*a) == o.AccountID, "account owned by itself")
		}
		if stk != nil {
			bad(stk.StakedAmount > o.Amount, "staked amount above amount")
			bad(bif == nil, "staking without block issuer feature")
		}
	case *iotago.AnchorOutput:
		fresh := o.AnchorID == (iotago.AnchorID{})
		bad(fresh && o.StateIndex != 0, "new anchor with state index")
		for _, a := range capAddrs(o) {
			if x, ok := a.(*iotago.AnchorAddress); ok && !fresh {
				bad([32]byte(*x) == o.AnchorID, "anchor controlled by itself")
			}
		}
	case *iotago.NFTOutput:
		if a, ok := ucs[0].(*iotago.AddressUnlockCondition).Address.(*iotago.NFTAddress); ok && o.NFTID != (iotago.NFTID{}) {
			bad([32]byte(*a) == o.NFTID, "NFT owned by itself")
		}
	case *iotago.FoundryOutput:
		ts := o.TokenScheme.(*iotago.SimpleTokenScheme)
		d := new(big.Int).Sub(ts.MintedTokens, ts.MeltedTokens)
		bad(ts.MaximumSupply.Sign() <= 0, "maximum supply zero")
		bad(d.Sign() < 0, "melted more than minted")
		bad(d.Cmp(ts.MaximumSupply) > 0, "circulating supply above maximum")
		if nt != nil {
			bad(nt.ID != RefFoundryID(o), "foundry holds foreign native tokens")
		}
	case *iotago.DelegationOutput:
		bad(*o.ValidatorAddress == (iotago.AccountAddress{}), "empty validator")
	}
	return
}

// OutputsErrs lists the rules broken by a list of outputs together.
func OutputsErrs(s Spec, os iotago.TxEssenceOutputs, commitment bool) (e []string) {
	bad := func(c bool, n string) {
		if c {
			e = append(e, n)
		}
	}
	amt, mana := new(big.Int), new(big.Int)
	chains := map[string]bool{}
	for _, o := range os {
		e = append(e, OutputErrs(s, o)...)
		amt.Add(amt, new(big.Int).SetUint64(AmountOf(o)))
		mana.Add(mana, new(big.Int).SetUint64(ManaStored(o)))
		if id, ok := RefChainID(o); ok {
			bad(chains[id], "chain identifier repeated on outputs")
			chains[id] = true
		}
		bad(!commitment && needsCommitment(o), "commitment input missing for output")
	}
	bad(len(os) < 1 || len(os) > 128, "output count")
	bad(amt.Cmp(new(big.Int).SetUint64(s.Supply)) > 0, "amounts above token supply")
	bad(mana.Cmp(s.MaxMana()) > 0, "stored mana above maximum")
	return
}

// MaxMana is the largest amount of mana.
func (s Spec) MaxMana() *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(s.Bits))
	return m.Sub(m, big.NewInt(1))
}

func ctxKey(c iotago.ContextInput) []byte {
	switch c := c.(type) {
	case *iotago.CommitmentInput:
		return []byte{0} // at most one
	case *iotago.BlockIssuanceCreditInput:
		return append([]byte{1}, c.AccountID[:]...)
	case *iotago.RewardInput:
		return []byte{2, byte(c.Index >> 8), byte(c.Index)}
	}
	return []byte{255}
}

// TxErrs lists the rules broken by a transaction.
func TxErrs(s Spec, t *iotago.Transaction) (e []string) {
	bad := func(c bool, n string) {
		if c {
			e = append(e, n)
		}
	}
	es := t.TransactionEssence
	bad(es.NetworkID != RefNetworkID(s.Name), "network ID")
	bad(len(es.Inputs) < 1 || len(es.Inputs) > 128, "input count")
	seen := map[string]bool{}
	for _, in := range es.Inputs {
		u := in.(*iotago.UTXOInput)
		k := string(u.TransactionID[:]) + string([]byte{byte(u.TransactionOutputIndex), byte(u.TransactionOutputIndex >> 8)})
		bad(seen[k], "input repeated")
		seen[k] = true
		bad(u.TransactionOutputIndex > 127, "input index")
	}
	bad(len(es.ContextInputs) > 128, "context input count")
	commitment := false
	for i, c := range es.ContextInputs {
		bad(i > 0 && bytes.Compare(ctxKey(es.ContextInputs[i-1]), ctxKey(c)) >= 0, "context inputs not sorted and unique")
		switch c := c.(type) {
		case *iotago.CommitmentInput:
			commitment = true
		case *iotago.RewardInput:
			bad(int(c.Index) >= len(es.Inputs), "reward index")
			bad(!commitment, "reward input without commitment input")
		case *iotago.BlockIssuanceCreditInput:
			bad(!commitment, "block issuance credit input without commitment input")
		}
	}
	bad(len(es.Allotments) > 128, "allotment count")
	sum := new(big.Int)
	for i, a := range es.Allotments {
		bad(i > 0 && bytes.Compare(es.Allotments[i-1].AccountID[:], a.AccountID[:]) >= 0, "allotments not sorted and unique")
		sum.Add(sum, new(big.Int).SetUint64(uint64(a.Mana)))
	}
	bad(sum.Cmp(s.MaxMana()) > 0, "allotted mana above maximum")
	n := len(es.Capabilities)
	bad(n > 1, "capabilities length")
	bad(n > 0 && es.Capabilities[n-1] == 0, "capabilities not minimal")
	if p, ok := es.Payload.(*iotago.TaggedData); ok && p != nil {
		e = append(e, taggedErrs(p)...)
	}
	return append(e, OutputsErrs(s, t.Outputs, commitment)...)
}

func taggedErrs(p *iotago.TaggedData) (e []string) {
	if len(p.Tag) > 64 {
		e = append(e, "payload tag length")
	}
	if len(p.Data) > 8192 {
		e = append(e, "payload data length")
	}
	return
}

// UnlockErrs lists the rules broken by the unlocks of a transaction with n inputs.
func UnlockErrs(us iotago.Unlocks, n int) (e []string) {
	bad := func(c bool, n string) {
		if c {
			e = append(e, n)
		}
	}
	bad(len(us) != n, "unlock count")
	bad(len(us) < 1 || len(us) > 128, "unlock count range")
	const (
		sig = iota + 1
		ref
		chain
		multi
	)
	kind := map[int]int{} // what sits at an earlier index
	topSigners, multiSigners := map[[32]byte]bool{}, map[[32]byte]bool{}
	multis := map[string]bool{}
	signer := func(s *iotago.SignatureUnlock) [32]byte {
		k := s.Signature.(*iotago.Ed25519Signature)
		return k.PublicKey
	}
	target := func(u iotago.Unlock) (i int, chainable bool) {
		switch u := u.(type) {
		case *iotago.ReferenceUnlock:
			return int(u.Reference), false
		case *iotago.AccountUnlock:
			return int(u.Reference), true
		case *iotago.AnchorUnlock:
			return int(u.Reference), true
		case *iotago.NFTUnlock:
			return int(u.Reference), true
		}
		return -1, false
	}
	for i, u := range us {
		switch u := u.(type) {
		case *iotago.SignatureUnlock:
			k := signer(u)
			bad(topSigners[k] || multiSigners[k], "signature repeated")
			topSigners[k] = true
			kind[i] = sig
		case *iotago.MultiUnlock:
			bad(len(u.Unlocks) < 2 || len(u.Unlocks) > 10, "multi unlock length")
			enc := string(EncUnlock(u))
			bad(multis[enc], "multi unlock repeated")
			multis[enc] = true
			for _, v := range u.Unlocks {
				switch v := v.(type) {
				case *iotago.SignatureUnlock:
					k := signer(v)
					bad(topSigners[k], "signature repeated inside multi unlock")
					multiSigners[k] = true
				case *iotago.EmptyUnlock:
				case *iotago.MultiUnlock:
					bad(true, "nested multi unlock")
				default:
					j, chainable := target(v)
					switch kind[j] {
					case sig:
					case ref, chain:
						bad(!chainable, "reference inside multi unlock to a reference")
					default:
						bad(true, "reference inside multi unlock to no earlier signature")
					}
				}
			}
			kind[i] = multi
		case *iotago.EmptyUnlock:
			bad(true, "empty unlock outside multi unlock")
		default:
			j, chainable := target(u)
			switch {
			case kind[j] == ref || kind[j] == chain:
				bad(!chainable, "reference to a reference")
			case kind[j] == 0:
				bad(true, "reference to no earlier unlock")
			}
			kind[i] = ref
			if chainable {
				kind[i] = chain
			}
		}
	}
	return
}

// SignedTxErrs lists the rules broken by a signed transaction.
func SignedTxErrs(s Spec, t *iotago.SignedTransaction) []string {
	return append(TxErrs(s, t.Transaction), UnlockErrs(t.Unlocks, len(t.Transaction.TransactionEssence.Inputs))...)
}

// BlockErrs lists the rules broken by a block.
func BlockErrs(s Spec, b *iotago.Block) (e []string) {
	bad := func(c bool, n string) {
		if c {
			e = append(e, n)
		}
	}
	bad(len(EncBlock(b)) > 32768, "block size")
	bad(byte(b.Header.ProtocolVersion) != s.Version, "protocol version")
	bad(b.Header.NetworkID != RefNetworkID(s.Name), "network ID")
	slot := uint64(s.RefSlotOf(b.Header.IssuingTime))
	cslot := uint64(SlotOf36([36]byte(b.Header.SlotCommitmentID)))
	window := func(c uint64, n string) {
		bad(c > uint64(s.GenesisSlot) && slot < c+uint64(s.MinCA), n+" too recent")
		bad(slot > c+uint64(s.MaxCA), n+" too old")
	}
	window(cslot, "commitment")
	parents := func(st, we, sh iotago.BlockIDs, maxN int) {
		bad(len(st) < 1, "no strong parent")
		non := map[iotago.BlockID]bool{}
		for li, l := range []iotago.BlockIDs{st, sh, we} {
			bad(len(l) > maxN, "parent count")
			for i, p := range l {
				bad(i > 0 && bytes.Compare(l[i-1][:], p[:]) >= 0, "parents not sorted and unique")
				if li < 2 {
					non[p] = true
				} else {
					bad(non[p], "weak parent is also another parent")
				}
			}
		}
	}
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		parents(body.StrongParents, body.WeakParents, body.ShallowLikeParents, 8)
		switch p := body.Payload.(type) {
		case *iotago.TaggedData:
			e = append(e, taggedErrs(p)...)
		case *iotago.SignedTransaction:
			e = append(e, SignedTxErrs(s, p)...)
			bad(slot < uint64(p.Transaction.TransactionEssence.CreationSlot), "block before transaction creation")
			for _, c := range p.Transaction.TransactionEssence.ContextInputs {
				if ci, ok := c.(*iotago.CommitmentInput); ok {
					c := uint64(SlotOf36([36]byte(ci.CommitmentID)))
					window(c, "commitment input")
					bad(c > cslot, "commitment input newer than the block's commitment")
				}
			}
		}
	case *iotago.ValidationBlockBody:
		parents(body.StrongParents, body.WeakParents, body.ShallowLikeParents, 50)
		bad(body.HighestSupportedVersion < b.Header.ProtocolVersion, "highest supported version below version")
	}
	return
}

// SlotOf36 is the slot embedded in a 36 byte identifier.
func SlotOf36(id [36]byte) uint32 {
	return uint32(id[32]) | uint32(id[33])<<8 | uint32(id[34])<<16 | uint32(id[35])<<24
}
