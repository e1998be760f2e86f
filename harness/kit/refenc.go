package kit

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"golang.org/x/crypto/blake2b"
)

// Independent encoder written from the wire layout of the protocol. It uses no encoding code of the library.

type enc struct{ b []byte }

func (e *enc) u8(v uint8) *enc      { e.b = append(e.b, v); return e }
func (e *enc) u16(v uint16) *enc    { e.b = binary.LittleEndian.AppendUint16(e.b, v); return e }
func (e *enc) u32(v uint32) *enc    { e.b = binary.LittleEndian.AppendUint32(e.b, v); return e }
func (e *enc) u64(v uint64) *enc    { e.b = binary.LittleEndian.AppendUint64(e.b, v); return e }
func (e *enc) raw(v []byte) *enc    { e.b = append(e.b, v...); return e }
func (e *enc) u256(v *big.Int) *enc { return e.raw(LE256(v)) }

// LE256 is the 32 byte little-endian form.
func LE256(v *big.Int) []byte {
	b := v.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// Blake is BLAKE2b-256 of the concatenation.
func Blake(parts ...[]byte) [32]byte {
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}
	return blake2b.Sum256(all)
}

func cat(parts ...[]byte) []byte {
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}
	return all
}

// Cat concatenates.
func Cat(parts ...[]byte) []byte { return cat(parts...) }

// EncAddr encodes an address.
func EncAddr(a iotago.Address) []byte {
	e := &enc{}
	switch a := a.(type) {
	case *iotago.Ed25519Address:
		e.u8(0).raw(a[:])
	case *iotago.AccountAddress:
		e.u8(8).raw(a[:])
	case *iotago.NFTAddress:
		e.u8(16).raw(a[:])
	case *iotago.AnchorAddress:
		e.u8(24).raw(a[:])
	case *iotago.ImplicitAccountCreationAddress:
		e.u8(32).raw(a[:])
	case *iotago.MultiAddress:
		e.u8(40).u8(uint8(len(a.Addresses)))
		for _, m := range a.Addresses {
			e.raw(EncAddr(m.Address)).u8(m.Weight)
		}
		e.u16(a.Threshold)
	case *iotago.RestrictedAddress:
		e.u8(48).raw(EncAddr(a.Address)).u8(uint8(len(a.AllowedCapabilities))).raw(a.AllowedCapabilities)
	default:
		panic(fmt.Sprintf("[harness-error] address %T", a))
	}
	return e.b
}

// RefAddrID is the identifier of an address.
func RefAddrID(a iotago.Address) string {
	switch a := a.(type) {
	case *iotago.MultiAddress:
		h := blake2b.Sum256(EncAddr(a))
		return string(append([]byte{40}, h[:]...))
	case *iotago.RestrictedAddress:
		e := &enc{}
		e.u8(48).raw([]byte(RefAddrID(a.Address))).u8(uint8(len(a.AllowedCapabilities))).raw(a.AllowedCapabilities)
		return string(e.b)
	default:
		return string(EncAddr(a))
	}
}

func (e *enc) entries(m map[string][]byte) *enc {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	// entries are ordered by their encoded key, whose first byte is the key length
	sort.Slice(ks, func(i, j int) bool {
		return string(append([]byte{byte(len(ks[i]))}, ks[i]...)) < string(append([]byte{byte(len(ks[j]))}, ks[j]...))
	})
	e.u8(uint8(len(ks)))
	for _, k := range ks {
		e.u8(uint8(len(k))).raw([]byte(k)).u16(uint16(len(m[k]))).raw(m[k])
	}
	return e
}

// EncFeat encodes a feature.
func EncFeat(f iotago.Feature) []byte {
	e := &enc{}
	switch f := f.(type) {
	case *iotago.SenderFeature:
		e.u8(0).raw(EncAddr(f.Address))
	case *iotago.IssuerFeature:
		e.u8(1).raw(EncAddr(f.Address))
	case *iotago.MetadataFeature:
		m := map[string][]byte{}
		for k, v := range f.Entries {
			m[string(k)] = v
		}
		e.u8(2).entries(m)
	case *iotago.StateMetadataFeature:
		m := map[string][]byte{}
		for k, v := range f.Entries {
			m[string(k)] = v
		}
		e.u8(3).entries(m)
	case *iotago.TagFeature:
		e.u8(4).u8(uint8(len(f.Tag))).raw(f.Tag)
	case *iotago.NativeTokenFeature:
		e.u8(5).raw(f.ID[:]).u256(f.Amount)
	case *iotago.BlockIssuerFeature:
		e.u8(6).u32(uint32(f.ExpirySlot)).u8(uint8(len(f.BlockIssuerKeys)))
		for _, k := range f.BlockIssuerKeys {
			kk := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey)
			e.u8(0).raw(kk.PublicKeyHash[:])
		}
	case *iotago.StakingFeature:
		e.u8(7).u64(uint64(f.StakedAmount)).u64(uint64(f.FixedCost)).u32(uint32(f.StartEpoch)).u32(uint32(f.EndEpoch))
	default:
		panic(fmt.Sprintf("[harness-error] feature %T", f))
	}
	return e.b
}

// EncUC encodes an unlock condition.
func EncUC(u iotago.UnlockCondition) []byte {
	e := &enc{}
	switch u := u.(type) {
	case *iotago.AddressUnlockCondition:
		e.u8(0).raw(EncAddr(u.Address))
	case *iotago.StorageDepositReturnUnlockCondition:
		e.u8(1).raw(EncAddr(u.ReturnAddress)).u64(uint64(u.Amount))
	case *iotago.TimelockUnlockCondition:
		e.u8(2).u32(uint32(u.Slot))
	case *iotago.ExpirationUnlockCondition:
		e.u8(3).raw(EncAddr(u.ReturnAddress)).u32(uint32(u.Slot))
	case *iotago.StateControllerAddressUnlockCondition:
		e.u8(4).raw(EncAddr(u.Address))
	case *iotago.GovernorAddressUnlockCondition:
		e.u8(5).raw(EncAddr(u.Address))
	case *iotago.ImmutableAccountUnlockCondition:
		e.u8(6).raw(EncAddr(u.Address))
	default:
		panic(fmt.Sprintf("[harness-error] uc %T", u))
	}
	return e.b
}

func list8[T any](e *enc, xs []T, f func(T) []byte) {
	e.u8(uint8(len(xs)))
	for _, x := range xs {
		e.raw(f(x))
	}
}

func list16[T any](e *enc, xs []T, f func(T) []byte) {
	e.u16(uint16(len(xs)))
	for _, x := range xs {
		e.raw(f(x))
	}
}

// EncScheme encodes a token scheme.
func EncScheme(t iotago.TokenScheme) []byte {
	s := t.(*iotago.SimpleTokenScheme)
	return (&enc{}).u8(0).u256(s.MintedTokens).u256(s.MeltedTokens).u256(s.MaximumSupply).b
}

// Parts lists the unlock conditions, features and immutable features of an output.
func Parts(o iotago.Output) (ucs []iotago.UnlockCondition, fs, ims []iotago.Feature) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		ucs, fs = toUC(o.UnlockConditions), toF(o.Features)
	case *iotago.AccountOutput:
		ucs, fs, ims = toUC(o.UnlockConditions), toF(o.Features), toF(o.ImmutableFeatures)
	case *iotago.AnchorOutput:
		ucs, fs, ims = toUC(o.UnlockConditions), toF(o.Features), toF(o.ImmutableFeatures)
	case *iotago.FoundryOutput:
		ucs, fs, ims = toUC(o.UnlockConditions), toF(o.Features), toF(o.ImmutableFeatures)
	case *iotago.NFTOutput:
		ucs, fs, ims = toUC(o.UnlockConditions), toF(o.Features), toF(o.ImmutableFeatures)
	case *iotago.DelegationOutput:
		ucs = toUC(o.UnlockConditions)
	default:
		panic(fmt.Sprintf("[harness-error] output %T", o))
	}
	return
}

func toUC[T iotago.UnlockCondition](xs []T) (r []iotago.UnlockCondition) {
	for _, x := range xs {
		r = append(r, x)
	}
	return
}

func toF[T iotago.Feature](xs []T) (r []iotago.Feature) {
	for _, x := range xs {
		r = append(r, x)
	}
	return
}

// EncOutput encodes an output.
func EncOutput(o iotago.Output) []byte {
	e := &enc{}
	ucs, fs, ims := Parts(o)
	switch o := o.(type) {
	case *iotago.BasicOutput:
		e.u8(0).u64(uint64(o.Amount)).u64(uint64(o.Mana))
		list8(e, ucs, EncUC)
		list8(e, fs, EncFeat)
		return e.b
	case *iotago.AccountOutput:
		e.u8(1).u64(uint64(o.Amount)).u64(uint64(o.Mana)).raw(o.AccountID[:]).u32(o.FoundryCounter)
	case *iotago.AnchorOutput:
		e.u8(2).u64(uint64(o.Amount)).u64(uint64(o.Mana)).raw(o.AnchorID[:]).u32(o.StateIndex)
	case *iotago.FoundryOutput:
		e.u8(3).u64(uint64(o.Amount)).u32(o.SerialNumber).raw(EncScheme(o.TokenScheme))
	case *iotago.NFTOutput:
		e.u8(4).u64(uint64(o.Amount)).u64(uint64(o.Mana)).raw(o.NFTID[:])
	case *iotago.DelegationOutput:
		e.u8(5).u64(uint64(o.Amount)).u64(uint64(o.DelegatedAmount)).raw(o.DelegationID[:]).raw(EncAddr(o.ValidatorAddress)).u32(uint32(o.StartEpoch)).u32(uint32(o.EndEpoch))
		list8(e, ucs, EncUC)
		return e.b
	}
	list8(e, ucs, EncUC)
	list8(e, fs, EncFeat)
	list8(e, ims, EncFeat)
	return e.b
}

// EncCtxInput encodes a context input.
func EncCtxInput(c iotago.ContextInput) []byte {
	e := &enc{}
	switch c := c.(type) {
	case *iotago.CommitmentInput:
		e.u8(0).raw(c.CommitmentID[:])
	case *iotago.BlockIssuanceCreditInput:
		e.u8(1).raw(c.AccountID[:])
	case *iotago.RewardInput:
		e.u8(2).u16(c.Index)
	default:
		panic(fmt.Sprintf("[harness-error] ctx %T", c))
	}
	return e.b
}

// EncTagged encodes tagged data (with its payload type).
func EncTagged(t *iotago.TaggedData) []byte {
	return (&enc{}).u8(0).u8(uint8(len(t.Tag))).raw(t.Tag).u32(uint32(len(t.Data))).raw(t.Data).b
}

// EncEssence encodes the essence part of a transaction.
func EncEssence(t *iotago.TransactionEssence) []byte {
	e := &enc{}
	e.u64(uint64(t.NetworkID)).u32(uint32(t.CreationSlot))
	e.u16(uint16(len(t.ContextInputs)))
	for _, c := range t.ContextInputs {
		e.raw(EncCtxInput(c))
	}
	e.u16(uint16(len(t.Inputs)))
	for _, i := range t.Inputs {
		u := i.(*iotago.UTXOInput)
		e.u8(0).raw(u.TransactionID[:]).u16(u.TransactionOutputIndex)
	}
	e.u16(uint16(len(t.Allotments)))
	for _, a := range t.Allotments {
		e.raw(a.AccountID[:]).u64(uint64(a.Mana))
	}
	e.u8(uint8(len(t.Capabilities))).raw(t.Capabilities)
	e.optional(t.Payload)
	return e.b
}

func (e *enc) optional(p any) *enc {
	switch p := p.(type) {
	case nil:
		return e.u32(0)
	case *iotago.TaggedData:
		b := EncTagged(p)
		return e.u32(uint32(len(b))).raw(b)
	case *iotago.SignedTransaction:
		b := EncSignedTx(p)
		return e.u32(uint32(len(b))).raw(b)
	case *iotago.CandidacyAnnouncement:
		return e.u32(1).u8(2)
	default:
		panic(fmt.Sprintf("[harness-error] payload %T", p))
	}
}

// EncTx encodes a transaction.
func EncTx(t *iotago.Transaction) []byte {
	e := &enc{}
	e.raw(EncEssence(t.TransactionEssence))
	e.u16(uint16(len(t.Outputs)))
	for _, o := range t.Outputs {
		e.raw(EncOutput(o))
	}
	return e.b
}

// EncSig encodes a signature.
func EncSig(s iotago.Signature) []byte {
	x := s.(*iotago.Ed25519Signature)
	return (&enc{}).u8(0).raw(x.PublicKey[:]).raw(x.Signature[:]).b
}

// EncUnlock encodes an unlock.
func EncUnlock(u iotago.Unlock) []byte {
	e := &enc{}
	switch u := u.(type) {
	case *iotago.SignatureUnlock:
		e.u8(0).raw(EncSig(u.Signature))
	case *iotago.ReferenceUnlock:
		e.u8(1).u16(u.Reference)
	case *iotago.AccountUnlock:
		e.u8(2).u16(u.Reference)
	case *iotago.AnchorUnlock:
		e.u8(3).u16(u.Reference)
	case *iotago.NFTUnlock:
		e.u8(4).u16(u.Reference)
	case *iotago.MultiUnlock:
		e.u8(5)
		list8(e, u.Unlocks, EncUnlock)
	case *iotago.EmptyUnlock:
		e.u8(6)
	default:
		panic(fmt.Sprintf("[harness-error] unlock %T", u))
	}
	return e.b
}

// EncUnlocks encodes the list.
func EncUnlocks(us iotago.Unlocks) []byte {
	e := &enc{}
	list16(e, us, EncUnlock)
	return e.b
}

// EncSignedTx encodes a signed transaction payload.
func EncSignedTx(t *iotago.SignedTransaction) []byte {
	return (&enc{}).u8(1).raw(EncTx(t.Transaction)).raw(EncUnlocks(t.Unlocks)).b
}

// EncHeader encodes a block header.
func EncHeader(h iotago.BlockHeader) []byte {
	return (&enc{}).u8(uint8(h.ProtocolVersion)).u64(uint64(h.NetworkID)).u64(uint64(h.IssuingTime.UnixNano())).raw(h.SlotCommitmentID[:]).u32(uint32(h.LatestFinalizedSlot)).raw(h.IssuerID[:]).b
}

func (e *enc) blockIDs(ids iotago.BlockIDs) *enc {
	e.u8(uint8(len(ids)))
	for _, id := range ids {
		e.raw(id[:])
	}
	return e
}

// EncBody encodes a block body.
func EncBody(b iotago.BlockBody) []byte {
	e := &enc{}
	switch b := b.(type) {
	case *iotago.BasicBlockBody:
		e.u8(0).blockIDs(b.StrongParents).blockIDs(b.WeakParents).blockIDs(b.ShallowLikeParents).optional(b.Payload).u64(uint64(b.MaxBurnedMana))
	case *iotago.ValidationBlockBody:
		e.u8(1).blockIDs(b.StrongParents).blockIDs(b.WeakParents).blockIDs(b.ShallowLikeParents).u8(uint8(b.HighestSupportedVersion)).raw(b.ProtocolParametersHash[:])
	}
	return e.b
}

// EncBlock encodes a block.
func EncBlock(b *iotago.Block) []byte {
	return cat(EncHeader(b.Header), EncBody(b.Body), EncSig(b.Signature))
}

// EncCommitment encodes a commitment.
func EncCommitment(c *iotago.Commitment) []byte {
	return (&enc{}).u8(uint8(c.ProtocolVersion)).u32(uint32(c.Slot)).raw(c.PreviousCommitmentID[:]).raw(c.RootsID[:]).u64(c.CumulativeWeight).u64(uint64(c.ReferenceManaCost)).b
}

// EncAttestation encodes an attestation.
func EncAttestation(a *iotago.Attestation) []byte {
	return cat(EncHeader(a.Header), a.BodyHash[:], EncSig(a.Signature))
}

// ---- identifiers

func withSlot(h [32]byte, slot uint32) (r [36]byte) { return slotID(h, slot) }

// RefMerkle is the root of encoded leaves.
func RefMerkle(vals [][]byte) [32]byte {
	switch len(vals) {
	case 0:
		return blake2b.Sum256(nil)
	case 1:
		return Blake([]byte{0}, vals[0])
	}
	k := 1
	for k*2 < len(vals) {
		k *= 2
	}
	l, r := RefMerkle(vals[:k]), RefMerkle(vals[k:])
	return Blake([]byte{1}, l[:], r[:])
}

// RefOutCommit is the output commitment of a transaction.
func RefOutCommit(t *iotago.Transaction) [32]byte {
	var vs [][]byte
	for _, o := range t.Outputs {
		vs = append(vs, EncOutput(o))
	}
	return RefMerkle(vs)
}

// RefTxID computes the transaction ID.
func RefTxID(t *iotago.Transaction) iotago.TransactionID {
	c := Blake(EncEssence(t.TransactionEssence))
	o := RefOutCommit(t)
	return iotago.TransactionID(withSlot(Blake(c[:], o[:]), uint32(t.CreationSlot)))
}

// RefSignedTxID computes the signed transaction ID.
func RefSignedTxID(t *iotago.SignedTransaction) iotago.SignedTransactionID {
	return iotago.SignedTransactionID(withSlot(Blake(EncTx(t.Transaction), EncUnlocks(t.Unlocks)), uint32(t.Transaction.CreationSlot)))
}

// RefSigningMsg is the message a transaction signature covers.
func RefSigningMsg(t *iotago.Transaction) [32]byte { return Blake(EncTx(t)) }

// RefOutputID appends the index.
func RefOutputID(tx iotago.TransactionID, i uint16) (o iotago.OutputID) {
	copy(o[:], tx[:])
	binary.LittleEndian.PutUint16(o[36:], i)
	return
}

// RefSlotOf converts a time.
func (s Spec) RefSlotOf(t time.Time) uint32 {
	d := t.Unix() - s.GenesisUnix
	if d < 0 {
		return s.GenesisSlot
	}
	return s.GenesisSlot + uint32(d/int64(s.SlotDur)) + 1
}

// RefBlockID computes the block ID.
func RefBlockID(s Spec, b *iotago.Block) iotago.BlockID {
	hh := Blake(EncHeader(b.Header))
	bh := Blake(EncBody(b.Body))
	return iotago.BlockID(withSlot(Blake(hh[:], bh[:], EncSig(b.Signature)), s.RefSlotOf(b.Header.IssuingTime)))
}

// RefBlockMsg is the message a block signature covers.
func RefBlockMsg(b *iotago.Block) []byte {
	hh := Blake(EncHeader(b.Header))
	bh := Blake(EncBody(b.Body))
	return cat(hh[:], bh[:])
}

// RefCommitmentID computes the commitment ID.
func RefCommitmentID(c *iotago.Commitment) iotago.CommitmentID {
	return iotago.CommitmentID(withSlot(Blake(EncCommitment(c)), uint32(c.Slot)))
}

// RefNetworkID hashes the network name.
func RefNetworkID(name string) iotago.NetworkID {
	h := blake2b.Sum256([]byte(name))
	return iotago.NetworkID(binary.LittleEndian.Uint64(h[:8]))
}

// RefFoundryID derives the ID of a foundry.
func RefFoundryID(f *iotago.FoundryOutput) (r iotago.FoundryID) {
	for _, u := range f.UnlockConditions {
		if a, ok := u.(*iotago.ImmutableAccountUnlockCondition); ok {
			copy(r[:], (&enc{}).raw(EncAddr(a.Address)).u32(f.SerialNumber).u8(0).b)
		}
	}
	return
}

// RefChainID returns the chain identifier of an output, false if it has none or a zero one.
func RefChainID(o iotago.Output) (string, bool) {
	var z [32]byte
	switch o := o.(type) {
	case *iotago.AccountOutput:
		return "A" + string(o.AccountID[:]), o.AccountID != z
	case *iotago.AnchorOutput:
		return "X" + string(o.AnchorID[:]), o.AnchorID != z
	case *iotago.NFTOutput:
		return "N" + string(o.NFTID[:]), o.NFTID != z
	case *iotago.DelegationOutput:
		return "D" + string(o.DelegationID[:]), o.DelegationID != z
	case *iotago.FoundryOutput:
		id := RefFoundryID(o)
		return "F" + string(id[:]), true
	}
	return "", false
}

// RefChainFromOutput derives the 32 byte chain ID of an output created with a zero ID.
func RefChainFromOutput(o iotago.OutputID) [32]byte { return blake2b.Sum256(o[:]) }

// ---- storage score

func addrScore(s Spec, a iotago.Address) *big.Int {
	if _, ok := a.(*iotago.ImplicitAccountCreationAddress); !ok {
		return new(big.Int)
	}
	// difference between a minimal block issuer account and the basic output without the address
	acc := 1 + 8 + 8 + 32 + 4 + 1 + 34 + 1 + (1 + 4 + 1 + 33) + 1
	bas := 1 + 8 + 8 + 1 + 34 + 1
	return addB(mulB(uint64(s.FactorData), uint64(acc-bas)), new(big.Int).SetUint64(s.OffKey))
}

func mulB(a, b uint64) *big.Int {
	return new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
}
func addB(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r
}

// RefScore is the storage score of an output.
func RefScore(s Spec, o iotago.Output) *big.Int {
	r := addB(new(big.Int).SetUint64(s.OffOutput), mulB(uint64(s.FactorData), 38+36+4), mulB(uint64(s.FactorData), uint64(len(EncOutput(o)))))
	ucs, fs, ims := Parts(o)
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			r = addB(r, addrScore(s, u.Address))
		case *iotago.StorageDepositReturnUnlockCondition:
			r = addB(r, addrScore(s, u.ReturnAddress))
		case *iotago.ExpirationUnlockCondition:
			r = addB(r, addrScore(s, u.ReturnAddress))
		case *iotago.StateControllerAddressUnlockCondition:
			r = addB(r, addrScore(s, u.Address))
		case *iotago.GovernorAddressUnlockCondition:
			r = addB(r, addrScore(s, u.Address))
		}
	}
	for _, f := range append(append([]iotago.Feature{}, fs...), ims...) {
		switch f := f.(type) {
		case *iotago.SenderFeature:
			r = addB(r, addrScore(s, f.Address))
		case *iotago.IssuerFeature:
			r = addB(r, addrScore(s, f.Address))
		case *iotago.BlockIssuerFeature:
			r = addB(r, mulB(s.OffKey, uint64(len(f.BlockIssuerKeys))))
		case *iotago.StakingFeature:
			r = addB(r, new(big.Int).SetUint64(s.OffStaking))
		}
	}
	if _, ok := o.(*iotago.DelegationOutput); ok {
		r = addB(r, new(big.Int).SetUint64(s.OffDelegation))
	}
	return r
}

// RefMinDeposit is score times cost.
func RefMinDeposit(s Spec, o iotago.Output) *big.Int {
	return new(big.Int).Mul(RefScore(s, o), new(big.Int).SetUint64(s.StorageCost))
}

// RefMinReturn is the minimum deposit of a plain basic output to the address.
func RefMinReturn(s Spec, a iotago.Address) *big.Int {
	return RefMinDeposit(s, &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}})
}

// ---- restricted addresses

func capsOf(r *iotago.RestrictedAddress) uint16 {
	var v uint16
	for i, b := range r.AllowedCapabilities {
		if i < 2 {
			v |= uint16(b) << (8 * i)
		}
	}
	return v
}

// RequiredCaps is the set of capabilities an address needs to receive the output.
func RequiredCaps(o iotago.Output) uint16 {
	var need uint16
	ucs, fs, _ := Parts(o)
	for _, f := range fs {
		if nt, ok := f.(*iotago.NativeTokenFeature); ok && nt != nil {
			need |= 1
		}
	}
	for _, u := range ucs {
		switch u.(type) {
		case *iotago.TimelockUnlockCondition:
			need |= 4
		case *iotago.ExpirationUnlockCondition:
			need |= 8
		case *iotago.StorageDepositReturnUnlockCondition:
			need |= 16
		}
	}
	var mana iotago.Mana
	switch o := o.(type) {
	case *iotago.BasicOutput:
		mana = o.Mana
	case *iotago.AccountOutput:
		mana = o.Mana
		need |= 32
	case *iotago.AnchorOutput:
		mana = o.Mana
		need |= 64
	case *iotago.NFTOutput:
		mana = o.Mana
		need |= 128
	case *iotago.DelegationOutput:
		need |= 256
	}
	if mana != 0 {
		need |= 2
	}
	return need
}

func capAddrs(o iotago.Output) (r []iotago.Address) {
	ucs, _, _ := Parts(o)
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.StateControllerAddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.GovernorAddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.ExpirationUnlockCondition:
			r = append(r, u.ReturnAddress)
		}
	}
	return
}
