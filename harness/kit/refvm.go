package kit

import (
	"crypto/ed25519"
	"errors"
	"fmt"
	"math/big"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"
)

// VMIn is a consumed output.
type VMIn struct {
	ID  iotago.OutputID
	Out iotago.Output
}

// VMCase is a transaction with the context it is executed in.
type VMCase struct {
	E       *Env
	M       *ManaModel
	Tx      *iotago.SignedTransaction
	In      []VMIn
	Commit  *uint32
	BIC     map[[32]byte]int64
	Rewards map[int]uint64 // by input index
}

// Viol is a broken rule with the errors that name it.
type Viol struct {
	Rule string
	Errs []error
	Part string // which of the executor's rules (or "chain "+key) is broken
}

func slotOf(id iotago.OutputID) uint32 {
	return uint32(id[32]) | uint32(id[33])<<8 | uint32(id[34])<<16 | uint32(id[35])<<24
}

// InChainKey is the chain identity of a consumed output: kind letter and identifier (implicit accounts count as accounts).
func InChainKey(in VMIn) (string, bool) {
	if k, ok := RefChainID(in.Out); ok {
		return k, true
	}
	d := RefChainFromOutput(in.ID)
	switch o := in.Out.(type) {
	case *iotago.AccountOutput:
		return "A" + string(d[:]), true
	case *iotago.AnchorOutput:
		return "X" + string(d[:]), true
	case *iotago.NFTOutput:
		return "N" + string(d[:]), true
	case *iotago.DelegationOutput:
		return "D" + string(d[:]), true
	case *iotago.BasicOutput:
		if isImplicit(condsOf(o).addr) {
			return "A" + string(d[:]), true
		}
	}
	return "", false
}

// chainAddr is the address of a chain.
func chainAddr(key string) iotago.Address {
	var b [32]byte
	copy(b[:], key[1:])
	switch key[0] {
	case 'A':
		a := iotago.AccountAddress(b)
		return &a
	case 'X':
		a := iotago.AnchorAddress(b)
		return &a
	case 'N':
		a := iotago.NFTAddress(b)
		return &a
	}
	return nil
}

func resolve(a iotago.Address) iotago.Address {
	if r, ok := a.(*iotago.RestrictedAddress); ok {
		return r.Address
	}
	return a
}

// condition access by scanning the lists, not through the library's sets
type conds struct {
	addr, stateCtl, gov iotago.Address
	immAcc              *iotago.AccountAddress
	sdr                 *iotago.StorageDepositReturnUnlockCondition
	tl                  *iotago.TimelockUnlockCondition
	ex                  *iotago.ExpirationUnlockCondition
}

func condsOf(o iotago.Output) (c conds) {
	ucs, _, _ := Parts(o)
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			c.addr = u.Address
		case *iotago.StateControllerAddressUnlockCondition:
			c.stateCtl = u.Address
		case *iotago.GovernorAddressUnlockCondition:
			c.gov = u.Address
		case *iotago.ImmutableAccountUnlockCondition:
			c.immAcc = u.Address
		case *iotago.StorageDepositReturnUnlockCondition:
			c.sdr = u
		case *iotago.TimelockUnlockCondition:
			c.tl = u
		case *iotago.ExpirationUnlockCondition:
			c.ex = u
		}
	}
	return
}

type feats struct {
	sender iotago.Address
	issuer iotago.Address
	meta   *iotago.MetadataFeature
	smeta  *iotago.StateMetadataFeature
	nt     *iotago.NativeTokenFeature
	bif    *iotago.BlockIssuerFeature
	stk    *iotago.StakingFeature
	imm    string
}

func featsOf(o iotago.Output) (f feats) {
	_, fs, ims := Parts(o)
	for _, x := range fs {
		switch x := x.(type) {
		case *iotago.SenderFeature:
			f.sender = x.Address
		case *iotago.MetadataFeature:
			f.meta = x
		case *iotago.StateMetadataFeature:
			f.smeta = x
		case *iotago.NativeTokenFeature:
			f.nt = x
		case *iotago.BlockIssuerFeature:
			f.bif = x
		case *iotago.StakingFeature:
			f.stk = x
		}
	}
	for _, x := range ims {
		if i, ok := x.(*iotago.IssuerFeature); ok {
			f.issuer = i.Address
		}
		f.imm += string(EncFeat(x)) + "|"
	}
	return
}

func encOf(f iotago.Feature, present bool) string {
	if !present {
		return ""
	}
	return string(EncFeat(f))
}

// OutChains maps chain identities to output indices.
func OutChains(tx *iotago.Transaction) map[string]int {
	id := RefTxID(tx)
	m := map[string]int{}
	for i, o := range tx.Outputs {
		if _, basic := o.(*iotago.BasicOutput); basic {
			continue
		}
		if k, ok := InChainKey(VMIn{RefOutputID(id, uint16(i)), o}); ok {
			m[k] = i
		}
	}
	return m
}

type unlockedAt struct {
	at   int
	refs map[int]bool
}

// UnlockState is the result of checking unlocks in order.
type UnlockState struct {
	addrs map[string]*unlockedAt
	sigs  map[int]*iotago.Ed25519Signature
	msg   []byte
}

// Has tells whether the address (wrapped or not) is unlocked.
func (s *UnlockState) Has(a iotago.Address) bool { return s.addrs[RefAddrID(resolve(a))] != nil }

func (s *UnlockState) by(i int, a iotago.Address) bool {
	u := s.addrs[RefAddrID(resolve(a))]
	return u != nil && (u.at == i || u.refs[i])
}

func sigOf(u iotago.Unlock) *iotago.Ed25519Signature {
	if s, ok := u.(*iotago.SignatureUnlock); ok {
		e, _ := s.Signature.(*iotago.Ed25519Signature)
		return e
	}
	return nil
}

func keyHash(a iotago.Address) ([32]byte, bool) {
	switch a := a.(type) {
	case *iotago.Ed25519Address:
		return *a, true
	case *iotago.ImplicitAccountCreationAddress:
		return *a, true
	}
	return [32]byte{}, false
}

// owner of a consumed output in this transaction, or a violation.
func (c *VMCase) owner(i int, out map[string]int) (iotago.Address, *Viol) {
	in := c.In[i]
	cs := condsOf(in.Out)
	var own iotago.Address
	switch o := in.Out.(type) {
	case *iotago.AnchorOutput:
		own = cs.gov
		k, _ := InChainKey(in)
		if j, ok := out[k]; ok {
			switch n := c.Tx.Transaction.Outputs[j].(*iotago.AnchorOutput); {
			case n.StateIndex == o.StateIndex:
			case n.StateIndex == o.StateIndex+1:
				own = cs.stateCtl
			default:
				return nil, &Viol{Rule: "anchor state index jumps", Errs: []error{iotago.ErrOwnerTransitionDependentOutputNextInvalid}}
			}
		}
	case *iotago.FoundryOutput:
		own = cs.immAcc
	default:
		own = cs.addr
	}
	if cs.ex != nil {
		if c.Commit == nil {
			return nil, &Viol{Rule: "expiration without commitment", Errs: []error{iotago.ErrExpirationCommitmentInputMissing}}
		}
		switch {
		case *c.Commit+c.E.MinCA >= uint32(cs.ex.Slot):
			own = cs.ex.ReturnAddress
		case *c.Commit+c.E.MaxCA >= uint32(cs.ex.Slot):
			return nil, &Viol{Rule: "expiration undecided", Errs: []error{iotago.ErrExpirationNotUnlockable}}
		}
	}
	return own, nil
}

// Owner of input i under the expiration and anchor rules (nil if undefined).
func (c *VMCase) Owner(i int) iotago.Address {
	a, v := c.owner(i, OutChains(c.Tx.Transaction))
	if v != nil {
		return nil
	}
	return a
}

// unlock applies one unlock to an address; check only does not record anything.
func (s *UnlockState) unlock(a iotago.Address, u iotago.Unlock, i int, check bool) *Viol {
	id := RefAddrID(a)
	ref, kind := -1, byte(0)
	switch u := u.(type) {
	case *iotago.ReferenceUnlock:
		ref, kind = int(u.Reference), 'R'
	case *iotago.AccountUnlock:
		ref, kind = int(u.Reference), 'A'
	case *iotago.AnchorUnlock:
		ref, kind = int(u.Reference), 'X'
	case *iotago.NFTUnlock:
		ref, kind = int(u.Reference), 'N'
	}
	record := func() { s.addrs[id] = &unlockedAt{i, map[int]bool{}} }
	byRef := func(e error) *Viol {
		p := s.addrs[id]
		if p == nil || p.at != ref {
			return &Viol{Rule: "referenced unlock did not unlock this address", Errs: []error{e}}
		}
		if !check {
			p.refs[i] = true
		}
		return nil
	}
	if h, ok := keyHash(a); ok {
		e := iotago.ErrDirectUnlockableAddressUnlockInvalid
		if kind == 'R' {
			sg := s.sigs[ref]
			if sg == nil || Blake(sg.PublicKey[:]) != h {
				return &Viol{Rule: "reference to a signature of another address", Errs: []error{e}}
			}
			if !check {
				// the signature may have unlocked the other address of the same key
				if s.addrs[id] == nil {
					record()
				} else {
					s.addrs[id].refs[i] = true
				}
			}
			return nil
		}
		sg := sigOf(u)
		if sg == nil {
			return &Viol{Rule: "wrong unlock for a key address", Errs: []error{e}}
		}
		if s.addrs[id] != nil {
			return &Viol{Rule: "address already unlocked", Errs: []error{e}}
		}
		if Blake(sg.PublicKey[:]) != h || !ed25519.Verify(sg.PublicKey[:], s.msg, sg.Signature[:]) {
			return &Viol{Rule: "signature invalid", Errs: []error{e, iotago.ErrUnlockSignatureInvalid}}
		}
		if !check {
			record()
			s.sigs[i] = sg
		}
		return nil
	}
	if m, ok := a.(*iotago.MultiAddress); ok {
		e := iotago.ErrMultiAddressUnlockInvalid
		if kind == 'R' {
			return byRef(e)
		}
		mu, ok := u.(*iotago.MultiUnlock)
		if !ok {
			return &Viol{Rule: "wrong unlock for a multi address", Errs: []error{e}}
		}
		if s.addrs[id] != nil {
			return &Viol{Rule: "address already unlocked", Errs: []error{e}}
		}
		if len(mu.Unlocks) != len(m.Addresses) {
			return &Viol{Rule: "multi unlock length", Errs: []error{e, iotago.ErrMultiAddressLengthUnlockLengthMismatch}}
		}
		w := 0
		for j, v := range mu.Unlocks {
			switch v.(type) {
			case *iotago.EmptyUnlock:
				continue
			case *iotago.MultiUnlock:
				return &Viol{Rule: "nested multi unlock", Errs: []error{e, iotago.ErrNestedMultiUnlock}}
			}
			if x := s.unlock(m.Addresses[j].Address, v, i, true); x != nil {
				return &Viol{Rule: "multi member: " + x.Rule, Errs: append(x.Errs, e)}
			}
			w += int(m.Addresses[j].Weight)
		}
		if w < int(m.Threshold) {
			return &Viol{Rule: "multi threshold", Errs: []error{e, iotago.ErrMultiAddressUnlockThresholdNotReached}}
		}
		record()
		return nil
	}
	e := iotago.ErrChainAddressUnlockInvalid
	want := map[byte]byte{8: 'A', 16: 'N', 24: 'X'}[id[0]]
	if kind != want {
		return &Viol{Rule: "wrong unlock for a chain address", Errs: []error{e}}
	}
	return byRef(e)
}

// Unlocks checks all unlocks in order.
func (c *VMCase) Unlocks() (*UnlockState, *Viol) {
	m := RefSigningMsg(c.Tx.Transaction)
	s := &UnlockState{map[string]*unlockedAt{}, map[int]*iotago.Ed25519Signature{}, m[:]}
	out := OutChains(c.Tx.Transaction)
	for i, in := range c.In {
		own, v := c.owner(i, out)
		if v != nil {
			return nil, v
		}
		if v := s.unlock(resolve(own), c.Tx.Unlocks[i], i, false); v != nil {
			return nil, v
		}
		s.chain(c, i, in, out)
	}
	return s, nil
}

// chain records the address of a consumed chain output.
func (s *UnlockState) chain(c *VMCase, i int, in VMIn, out map[string]int) {
	k, ok := InChainKey(in)
	if _, basic := in.Out.(*iotago.BasicOutput); !ok || basic || k[0] == 'D' || k[0] == 'F' {
		return
	}
	if a, ok := in.Out.(*iotago.AnchorOutput); ok {
		j, has := out[k]
		if !has || c.Tx.Transaction.Outputs[j].(*iotago.AnchorOutput).StateIndex != a.StateIndex+1 {
			return
		}
	}
	s.addrs[RefAddrID(chainAddr(k))] = &unlockedAt{i, map[int]bool{}}
}

func (c *VMCase) storedIn(in VMIn) *big.Int {
	return c.M.Decay(bigU(ManaStored(in.Out)), c.M.Epoch(uint32(c.Tx.Transaction.CreationSlot))-c.M.Epoch(slotOf(in.ID)))
}

func (c *VMCase) potentialIn(in VMIn) *big.Int {
	return c.E.PotentialMana(c.M, in.Out, slotOf(in.ID), uint32(c.Tx.Transaction.CreationSlot))
}

// ManaIn is the mana entering the transaction (inputs must not be created after it).
func (c *VMCase) ManaIn() *big.Int {
	r := new(big.Int)
	for _, in := range c.In {
		r.Add(r, c.storedIn(in))
		r.Add(r, c.potentialIn(in))
	}
	for _, w := range c.Rewards {
		r.Add(r, bigU(w))
	}
	return r
}

// ManaOut is the mana leaving it.
func (c *VMCase) ManaOut() *big.Int {
	r := new(big.Int)
	for _, o := range c.Tx.Transaction.Outputs {
		r.Add(r, bigU(ManaStored(o)))
	}
	for _, a := range c.Tx.Transaction.Allotments {
		r.Add(r, bigU(uint64(a.Mana)))
	}
	return r
}

func (c *VMCase) cap(bit uint) bool {
	b := c.Tx.Transaction.Capabilities
	return len(b) > 0 && b[0]>>bit&1 == 1
}

func NTSums[O iotago.Output](outs []O) map[iotago.FoundryID]*big.Int {
	m := map[iotago.FoundryID]*big.Int{}
	for _, o := range outs {
		if nt := featsOf(o).nt; nt != nil {
			if m[nt.ID] == nil {
				m[nt.ID] = new(big.Int)
			}
			m[nt.ID].Add(m[nt.ID], nt.Amount)
		}
	}
	return m
}

func orZero(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

// Run gives all broken execution rules; an unlock violation ends the check, as nothing is executed then.
func (c *VMCase) Run() []Viol {
	us, v := c.Unlocks()
	if v != nil {
		return []Viol{*v}
	}
	return c.Exec(us)
}

// Exec lists the broken execution rules given the unlocked addresses.
func (c *VMCase) Exec(us *UnlockState) (vs []Viol) {
	part := "context"
	bad := func(cond bool, rule string, errs ...error) bool {
		if cond {
			vs = append(vs, Viol{rule, errs, part})
		}
		return cond
	}
	tx := c.Tx.Transaction
	created := uint32(tx.CreationSlot)
	var past, future uint32
	if c.Commit != nil {
		past, future = *c.Commit+c.E.MaxCA, *c.Commit+c.E.MinCA
	}
	for _, in := range c.In {
		if bad(slotOf(in.ID) > created, "input created after the transaction", iotago.ErrInputCreationAfterTxCreation, iotago.ErrManaDecayCreationIndexExceedsTargetIndex) {
			// nothing about mana is defined beyond what the stored amounts sum up to
			sum := new(big.Int)
			for _, x := range c.In {
				sum.Add(sum, bigU(ManaStored(x.Out)))
				sum.Add(sum, bigU(1<<40)) // some potential mana
			}
			for _, w := range c.Rewards {
				sum.Add(sum, bigU(w))
			}
			bad(sum.BitLen() > 64 || c.ManaOut().BitLen() > 64, "mana overflow", iotago.ErrManaOverflow)
			return
		}
	}
	part = "timelocks"
	for _, in := range c.In {
		if tl := condsOf(in.Out).tl; tl != nil {
			if !bad(c.Commit == nil, "timelock without commitment", iotago.ErrTimelockCommitmentInputMissing) {
				bad(future < uint32(tl.Slot), "timelock not expired", iotago.ErrTimelockNotExpired)
			}
		}
	}
	part = "sender"
	for _, o := range tx.Outputs {
		if s := featsOf(o).sender; s != nil {
			bad(!us.Has(s), "sender not unlocked", iotago.ErrSenderFeatureNotUnlocked)
		}
	}
	part = "base tokens"
	inSum, outSum := new(big.Int), new(big.Int)
	owed, paid := map[string]*big.Int{}, map[string]*big.Int{}
	for i, in := range c.In {
		inSum.Add(inSum, bigU(AmountOf(in.Out)))
		if r := condsOf(in.Out).sdr; r != nil && !us.by(i, r.ReturnAddress) {
			k := RefAddrID(r.ReturnAddress)
			owed[k] = new(big.Int).Add(orZero(owed[k]), bigU(uint64(r.Amount)))
		}
	}
	for _, o := range tx.Outputs {
		outSum.Add(outSum, bigU(AmountOf(o)))
		if b, ok := o.(*iotago.BasicOutput); ok && len(b.UnlockConditions) == 1 && len(b.Features) == 0 {
			k := RefAddrID(condsOf(o).addr)
			paid[k] = new(big.Int).Add(orZero(paid[k]), bigU(uint64(b.Amount)))
		}
	}
	bad(inSum.Cmp(outSum) != 0, "base tokens unbalanced", iotago.ErrInputOutputBaseTokenMismatch)
	for k, x := range owed {
		bad(orZero(paid[k]).Cmp(x) < 0, "storage deposit not returned", iotago.ErrReturnAmountNotFulFilled)
	}
	part = "native tokens"
	var ins []iotago.Output
	for _, in := range c.In {
		ins = append(ins, in.Out)
	}
	ntIn, ntOut := NTSums(ins), NTSums(tx.Outputs)
	out := OutChains(tx)
	inChains := map[string]int{}
	for i, in := range c.In {
		if k, ok := InChainKey(in); ok {
			inChains[k] = i
		}
	}
	for _, m := range []map[iotago.FoundryID]*big.Int{ntIn, ntOut} {
		for _, x := range m {
			bad(x.BitLen() > 256, "native token sum above 256 bits", iotago.ErrNativeTokenSetInvalid, iotago.ErrNativeTokenSumExceedsUint256)
		}
	}
	for id, x := range ntIn {
		if _, ok := out["F"+string(id[:])]; ok {
			continue
		}
		y := orZero(ntOut[id])
		bad(x.Cmp(y) < 0, "native token created", iotago.ErrNativeTokenSumUnbalanced, iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed)
		bad(x.Cmp(y) > 0 && !c.cap(0), "native token burned without permission", iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, iotago.ErrNativeTokenSumUnbalanced)
	}
	for id := range ntOut {
		_, ok := out["F"+string(id[:])]
		bad(!ok && ntIn[id] == nil, "native token appears from nowhere", iotago.ErrNativeTokenSumUnbalanced)
	}
	part = "context"
	mIn, mOut := c.ManaIn(), c.ManaOut()
	over := bad(mIn.BitLen() > 64 || mOut.BitLen() > 64, "mana overflow", iotago.ErrManaOverflow)
	part = "mana"
	bad(mIn.Cmp(mOut) < 0, "mana created", iotago.ErrInputOutputManaMismatch)
	bad(mIn.Cmp(mOut) > 0 && !c.cap(1), "mana burned without permission", iotago.ErrTxCapabilitiesManaBurningNotAllowed, iotago.ErrInputOutputManaMismatch)
	part = "implicit accounts" // at most one of their addresses
	n := 0
	for _, in := range c.In {
		if b, ok := in.Out.(*iotago.BasicOutput); ok && isImplicit(condsOf(b).addr) {
			n++
		}
	}
	bad(n > 1, "several implicit account creation addresses", iotago.ErrMultipleImplicitAccountCreationAddresses)
	// chains
	reward := map[string]bool{}
	for i := range c.Rewards {
		k, _ := InChainKey(c.In[i])
		reward[k] = true
	}
	x := &stvf{c: c, us: us, bad: bad, past: past, future: future, in: inChains, out: out, ntIn: ntIn, ntOut: ntOut, mIn: mIn, mOut: mOut, over: over, reward: reward}
	for _, k := range sortedKeys(inChains) {
		part = "chain " + k
		in := c.In[inChains[k]]
		j, ok := out[k]
		if !ok {
			x.destroy(k, in)
			continue
		}
		x.change(k, in, tx.Outputs[j])
	}
	for _, k := range sortedKeys(out) {
		part = "chain " + k
		if _, ok := inChains[k]; !ok {
			x.create(k, tx.Outputs[out[k]])
		}
	}
	return
}

func sortedKeys(m map[string]int) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

type stvf struct {
	c            *VMCase
	us           *UnlockState
	bad          func(cond bool, rule string, errs ...error) bool
	past, future uint32
	in, out      map[string]int
	ntIn, ntOut  map[iotago.FoundryID]*big.Int
	mIn, mOut    *big.Int
	over         bool
	reward       map[string]bool
}

func (x *stvf) issuer(o iotago.Output) {
	if i := featsOf(o).issuer; i != nil {
		x.bad(!x.us.Has(i), "issuer not unlocked", iotago.ErrIssuerFeatureNotUnlocked)
	}
}

func (x *stvf) epoch(slot uint32) uint32 { return x.c.M.Epoch(slot) }

func (x *stvf) stakeGenesis(s *iotago.StakingFeature) {
	pe := x.epoch(x.past)
	x.bad(uint32(s.StartEpoch) != pe, "staking start epoch", iotago.ErrStakingStartEpochInvalid)
	x.bad(uint64(s.EndEpoch) < uint64(pe)+uint64(x.c.E.Unbonding), "staking end epoch too early", iotago.ErrStakingEndEpochTooEarly)
}

func (x *stvf) registration(epoch uint32) uint32 {
	return x.c.E.GenesisSlot + (epoch+1)<<x.c.E.EpochExp - 1 - x.c.E.Nearing
}

func (x *stvf) create(_ string, o iotago.Output) {
	fresh := func(zero bool) {
		x.bad(!zero, "chain identifier appears without predecessor", iotago.ErrNewChainOutputHasNonZeroedID)
	}
	switch o := o.(type) {
	case *iotago.AccountOutput:
		fresh(o.AccountID == iotago.AccountID{})
		x.accountGenesis(o)
	case *iotago.AnchorOutput:
		fresh(o.AnchorID == iotago.AnchorID{})
		x.issuer(o)
	case *iotago.NFTOutput:
		fresh(o.NFTID == iotago.NFTID{})
		x.issuer(o)
	case *iotago.DelegationOutput:
		fresh(o.DelegationID == iotago.DelegationID{})
		if x.bad(x.c.Commit == nil, "delegation without commitment", iotago.ErrDelegationCommitmentInputMissing) {
			return
		}
		want := x.epoch(x.past) + 1
		if x.past > x.registration(x.epoch(x.past)) {
			want++
		}
		x.bad(uint32(o.StartEpoch) != want, "delegation start epoch", iotago.ErrDelegationStartEpochInvalid)
		x.bad(o.DelegatedAmount != o.Amount, "delegated amount", iotago.ErrDelegationAmountMismatch)
		x.bad(o.EndEpoch != 0, "delegation end epoch not zero", iotago.ErrDelegationEndEpochNotZero)
	case *iotago.FoundryOutput:
		x.foundryGenesis(o)
	}
}

func (x *stvf) accountGenesis(o *iotago.AccountOutput) {
	f := featsOf(o)
	if f.bif != nil {
		x.bad(uint32(f.bif.ExpirySlot) < x.past, "block issuer expiry too early", iotago.ErrBlockIssuerExpiryTooEarly)
	}
	if f.stk != nil {
		x.stakeGenesis(f.stk)
	}
	x.issuer(o)
}

func (x *stvf) foundryGenesis(o *iotago.FoundryOutput) {
	id := RefFoundryID(o)
	ts := o.TokenScheme.(*iotago.SimpleTokenScheme)
	x.bad(ts.MeltedTokens.Sign() != 0, "new foundry with melted tokens", iotago.ErrSimpleTokenSchemeTransition, iotago.ErrSimpleTokenSchemeGenesisInvalid)
	x.bad(ts.MintedTokens.Cmp(orZero(x.ntOut[id])) != 0, "new foundry mints other than it says", iotago.ErrSimpleTokenSchemeTransition, iotago.ErrSimpleTokenSchemeGenesisInvalid)
	acc := *condsOf(o).immAcc
	k := "A" + string(acc[:])
	i, inOK := x.in[k]
	j, outOK := x.out[k]
	if x.bad(!inOK || !outOK, "new foundry without its account", iotago.ErrFoundryTransitionWithoutAccount) {
		return
	}
	a, ok := x.c.In[i].Out.(*iotago.AccountOutput)
	if x.bad(!ok, "new foundry of an implicit account", iotago.ErrFoundryTransitionWithoutAccount) {
		return
	}
	b := x.c.Tx.Transaction.Outputs[j].(*iotago.AccountOutput)
	x.bad(o.SerialNumber <= a.FoundryCounter || o.SerialNumber > b.FoundryCounter, "foundry serial outside the account's counters", iotago.ErrFoundrySerialInvalid)
	for _, p := range x.c.Tx.Transaction.Outputs {
		q, ok := p.(*iotago.FoundryOutput)
		if !ok || *condsOf(q).immAcc != acc {
			continue
		}
		qid := RefFoundryID(q)
		if qid == id {
			break
		}
		if _, old := x.in["F"+string(qid[:])]; old {
			continue
		}
		x.bad(q.SerialNumber >= o.SerialNumber, "new foundries not ordered by serial", iotago.ErrFoundrySerialInvalid)
	}
}

func (x *stvf) bic(k string) {
	var id [32]byte
	copy(id[:], k[1:])
	b, ok := x.c.BIC[id]
	if !x.bad(!ok, "block issuance credit missing", iotago.ErrBlockIssuanceCreditInputMissing) {
		x.bad(b < 0, "account locked", iotago.ErrAccountLocked)
	}
}

func (x *stvf) destroy(k string, in VMIn) {
	f := featsOf(in.Out)
	switch o := in.Out.(type) {
	case *iotago.BasicOutput:
		x.bad(true, "implicit account destroyed", iotago.ErrImplicitAccountDestructionDisallowed)
	case *iotago.AccountOutput:
		removing := false
		x.bad(!x.c.cap(2), "account destroyed without permission", iotago.ErrTxCapabilitiesAccountDestructionNotAllowed)
		if f.bif != nil {
			if !x.bad(x.c.Commit == nil, "block issuer without commitment", iotago.ErrBlockIssuerCommitmentInputMissing) {
				x.bad(uint32(f.bif.ExpirySlot) >= *x.c.Commit, "block issuer account destroyed before expiry", iotago.ErrBlockIssuerNotExpired)
			}
			x.bic(k)
		}
		if f.stk != nil {
			if !x.bad(x.c.Commit == nil, "staking without commitment", iotago.ErrStakingCommitmentInputMissing) {
				x.bad(x.epoch(x.future) <= uint32(f.stk.EndEpoch), "staking account destroyed before its end", iotago.ErrStakingFeatureRemovedBeforeUnbonding)
			}
			removing = true
		}
		x.rewards(k, removing)
	case *iotago.AnchorOutput:
		x.bad(!x.c.cap(3), "anchor destroyed without permission", iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed)
	case *iotago.NFTOutput:
		x.bad(!x.c.cap(5), "NFT destroyed without permission", iotago.ErrTxCapabilitiesNFTDestructionNotAllowed)
	case *iotago.DelegationOutput:
		x.bad(!x.reward[k], "delegation destroyed without claiming", iotago.ErrDelegationRewardInputMissing)
	case *iotago.FoundryOutput:
		x.bad(!x.c.cap(4), "foundry destroyed without permission", iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed)
		id := RefFoundryID(o)
		ts := o.TokenScheme.(*iotago.SimpleTokenScheme)
		// circulating = minted - melted must be what is consumed and not kept
		left := new(big.Int).Sub(ts.MintedTokens, ts.MeltedTokens)
		gone := new(big.Int).Sub(orZero(x.ntIn[id]), orZero(x.ntOut[id]))
		x.bad(left.Cmp(gone) != 0, "foundry destroyed with circulating tokens", iotago.ErrSimpleTokenSchemeTransition, iotago.ErrNativeTokenSumUnbalanced)
	}
}

func (x *stvf) rewards(k string, removing bool) {
	x.bad(x.reward[k] && !removing, "rewards claimed without removing staking", iotago.ErrStakingRewardClaimingInvalid)
	x.bad(!x.reward[k] && removing, "staking removed without claiming rewards", iotago.ErrStakingRewardInputMissing)
}

func (x *stvf) change(k string, in VMIn, next iotago.Output) {
	f, g := featsOf(in.Out), featsOf(next)
	imm := func(errs ...error) {
		x.bad(f.imm != g.imm, "immutable features changed", append(errs, iotago.ErrChainOutputImmutableFeaturesChanged)...)
	}
	switch cur := in.Out.(type) {
	case *iotago.BasicOutput:
		n := next.(*iotago.AccountOutput)
		x.bic(k)
		x.bad(n.FoundryCounter != 0, "implicit account conversion with foundries", iotago.ErrAccountInvalidFoundryCounter)
		x.issuerRules(k, in, &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(^uint32(0))}, n)
		x.accountGenesis(n)
	case *iotago.AccountOutput:
		n := next.(*iotago.AccountOutput)
		imm()
		if f.bif != nil {
			x.bic(k)
		}
		removing := false
		switch {
		case f.stk != nil && x.c.Commit == nil:
			x.bad(true, "staking without commitment", iotago.ErrStakingCommitmentInputMissing)
		case f.stk != nil && x.epoch(x.future) <= uint32(f.stk.EndEpoch):
			if x.bad(g.stk == nil, "staking removed before its end", iotago.ErrStakingFeatureRemovedBeforeUnbonding) {
				break
			}
			x.bad(f.stk.StakedAmount != g.stk.StakedAmount || f.stk.FixedCost != g.stk.FixedCost || f.stk.StartEpoch != g.stk.StartEpoch, "staking changed before its end", iotago.ErrStakingFeatureModifiedBeforeUnbonding)
			x.bad(f.stk.EndEpoch != g.stk.EndEpoch && uint64(g.stk.EndEpoch) < uint64(x.epoch(x.past))+uint64(x.c.E.Unbonding), "staking end epoch too early", iotago.ErrStakingEndEpochTooEarly)
		case f.stk != nil && g.stk == nil:
			removing = true
		case f.stk != nil && encOf(f.stk, true) != encOf(g.stk, true):
			x.stakeGenesis(g.stk)
			removing = true
		case f.stk == nil && g.stk != nil:
			x.stakeGenesis(g.stk)
		}
		x.rewards(k, removing)
		// foundry counter
		x.bad(n.FoundryCounter < cur.FoundryCounter, "foundry counter decreased", iotago.ErrAccountInvalidFoundryCounter)
		if n.FoundryCounter > cur.FoundryCounter {
			created := uint32(0)
			for _, o := range x.c.Tx.Transaction.Outputs {
				if q, ok := o.(*iotago.FoundryOutput); ok {
					id := RefFoundryID(q)
					if _, old := x.in["F"+string(id[:])]; !old && string(condsOf(q).immAcc[:]) == k[1:] {
						created++
					}
				}
			}
			x.bad(created != n.FoundryCounter-cur.FoundryCounter, "foundry counter does not match the foundries created", iotago.ErrAccountInvalidFoundryCounter)
		}
		x.issuerRules(k, in, f.bif, n)
	case *iotago.AnchorOutput:
		n := next.(*iotago.AnchorOutput)
		if cur.StateIndex == n.StateIndex {
			e := iotago.ErrAnchorInvalidGovernanceTransition
			imm(e)
			x.bad(cur.Amount != n.Amount, "governance transition changes the amount", e)
			x.bad(encOf(f.smeta, f.smeta != nil) != encOf(g.smeta, g.smeta != nil), "governance transition changes the state metadata", e, iotago.ErrInvalidFeatureTransition)
			return
		}
		e := iotago.ErrAnchorInvalidStateTransition
		imm(e)
		c, d := condsOf(cur), condsOf(n)
		x.bad(RefAddrID(c.stateCtl) != RefAddrID(d.stateCtl), "state transition changes the state controller", e)
		x.bad(RefAddrID(c.gov) != RefAddrID(d.gov), "state transition changes the governor", e)
		x.bad(n.StateIndex != cur.StateIndex+1, "state index jumps", e)
		x.bad(encOf(f.meta, f.meta != nil) != encOf(g.meta, g.meta != nil), "state transition changes the metadata", e, iotago.ErrInvalidFeatureTransition)
	case *iotago.NFTOutput:
		imm()
	case *iotago.FoundryOutput:
		n := next.(*iotago.FoundryOutput)
		imm()
		id := RefFoundryID(cur)
		a, b := cur.TokenScheme.(*iotago.SimpleTokenScheme), n.TokenScheme.(*iotago.SimpleTokenScheme)
		e := []error{iotago.ErrSimpleTokenSchemeTransition, iotago.ErrSimpleTokenSchemeMintingInvalid, iotago.ErrSimpleTokenSchemeMeltingInvalid, iotago.ErrSimpleTokenSchemeMaximumSupplyChanged, iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease, iotago.ErrSimpleTokenSchemeInvalidMintedMeltedTokens}
		x.bad(a.MaximumSupply.Cmp(b.MaximumSupply) != 0, "maximum supply changed", e...)
		minted, melted := new(big.Int).Sub(b.MintedTokens, a.MintedTokens), new(big.Int).Sub(b.MeltedTokens, a.MeltedTokens)
		x.bad(minted.Sign() < 0 || melted.Sign() < 0, "minted or melted tokens decreased", e...)
		d := new(big.Int).Sub(orZero(x.ntOut[id]), orZero(x.ntIn[id]))
		wantMint, wantMelt := new(big.Int), new(big.Int)
		if d.Sign() > 0 {
			wantMint = d
		} else {
			wantMelt = new(big.Int).Neg(d)
		}
		x.bad(minted.Cmp(wantMint) != 0 || melted.Cmp(wantMelt) != 0, "foundry does not account for the tokens minted or melted", e...)
	case *iotago.DelegationOutput:
		n := next.(*iotago.DelegationOutput)
		x.bad(x.reward[k], "rewards claimed in a delegation transition", iotago.ErrDelegationRewardsClaimingInvalid)
		x.bad(cur.DelegationID != iotago.DelegationID{}, "delegation transitioned twice", iotago.ErrDelegationOutputTransitionedTwice)
		x.bad(cur.DelegatedAmount != n.DelegatedAmount || *cur.ValidatorAddress != *n.ValidatorAddress || cur.StartEpoch != n.StartEpoch, "delegation modified", iotago.ErrDelegationModified)
		if x.bad(x.c.Commit == nil, "delegation without commitment", iotago.ErrDelegationCommitmentInputMissing) {
			return
		}
		want := x.epoch(x.future)
		if x.future > x.registration(want) {
			want++
		}
		x.bad(uint32(n.EndEpoch) != want, "delegation end epoch", iotago.ErrDelegationEndEpochInvalid)
	default:
		panic(fmt.Sprintf("chain of %T", cur))
	}
}

// issuerRules are the rules of an account that is or becomes a block issuer.
func (x *stvf) issuerRules(_ string, in VMIn, cur *iotago.BlockIssuerFeature, next *iotago.AccountOutput) {
	n := featsOf(next).bif
	if cur == nil && n == nil {
		return
	}
	if x.bad(x.c.Commit == nil, "block issuer without commitment", iotago.ErrBlockIssuerCommitmentInputMissing) {
		return
	}
	if cur != nil && uint32(cur.ExpirySlot) >= *x.c.Commit {
		if !x.bad(n == nil, "block issuer feature removed before expiry", iotago.ErrBlockIssuerNotExpired) {
			x.bad(n.ExpirySlot != cur.ExpirySlot && uint32(n.ExpirySlot) < x.past, "block issuer expiry too early", iotago.ErrBlockIssuerExpiryTooEarly)
		}
	} else if n != nil {
		x.bad(uint32(n.ExpirySlot) < x.past, "block issuer expiry too early", iotago.ErrBlockIssuerExpiryTooEarly)
	}
	// mana lock
	if x.over {
		return
	}
	inOther := new(big.Int).Sub(x.mIn, x.c.storedIn(in))
	inOther.Sub(inOther, x.c.potentialIn(in))
	outOther := new(big.Int).Sub(x.mOut, bigU(uint64(next.Mana)))
	for _, a := range x.c.Tx.Transaction.Allotments {
		if a.AccountID == next.AccountID {
			outOther.Sub(outOther, bigU(uint64(a.Mana)))
		}
	}
	for _, o := range x.c.Tx.Transaction.Outputs {
		c := condsOf(o)
		if c.tl == nil || c.addr == nil {
			continue
		}
		if a, ok := c.addr.(*iotago.AccountAddress); ok && [32]byte(*a) == next.AccountID && uint64(c.tl.Slot) > uint64(x.past)+uint64(x.c.E.MaxCA) {
			outOther.Sub(outOther, bigU(ManaStored(o)))
		}
	}
	x.bad(inOther.Cmp(outOther) < 0, "mana moved off the block issuer account", iotago.ErrManaMovedOffBlockIssuerAccount)
}

// Explains tells whether an error names one of the violations.
func Explains(err error, vs []Viol) bool {
	for _, v := range vs {
		for _, e := range v.Errs {
			if errors.Is(err, e) {
				return true
			}
		}
	}
	return false
}

// Rules names the violations.
func Rules(vs []Viol) (r []string) {
	for _, v := range vs {
		r = append(r, v.Rule)
	}
	return
}

// Spender tells which address may consume the output within the slot bounds (nil: nobody), and the owner it is
// computed from; next is the anchor's next state if there is one.
func Spender(o iotago.Output, next *iotago.AnchorOutput, past, future uint32) (spender, owner iotago.Address, ok bool) {
	cs := condsOf(o)
	switch o := o.(type) {
	case *iotago.AnchorOutput:
		owner = cs.gov
		if next != nil {
			switch {
			case next.StateIndex == o.StateIndex:
			case uint64(next.StateIndex) == uint64(o.StateIndex)+1:
				owner = cs.stateCtl
			default:
				return nil, nil, false
			}
		}
	case *iotago.FoundryOutput:
		owner = cs.immAcc
	default:
		owner = cs.addr
	}
	switch {
	case cs.tl != nil && future < uint32(cs.tl.Slot):
		return nil, owner, true
	case cs.ex == nil || past < uint32(cs.ex.Slot):
		return owner, owner, true
	case future >= uint32(cs.ex.Slot):
		return cs.ex.ReturnAddress, owner, true
	}
	return nil, owner, true
}

// SlotsOf lists the slots of an output's conditions.
func SlotsOf(o iotago.Output) (r []uint32) {
	cs := condsOf(o)
	if cs.tl != nil {
		r = append(r, uint32(cs.tl.Slot))
	}
	if cs.ex != nil {
		r = append(r, uint32(cs.ex.Slot))
	}
	return
}

// CondAddrs lists the addresses in an output's conditions.
func CondAddrs(o iotago.Output) (r []iotago.Address) {
	ucs, _, _ := Parts(o)
	for _, u := range ucs {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.StateControllerAddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.GovernorAddressUnlockCondition:
			r = append(r, u.Address)
		case *iotago.ImmutableAccountUnlockCondition:
			r = append(r, u.Address)
		case *iotago.StorageDepositReturnUnlockCondition:
			r = append(r, u.ReturnAddress)
		case *iotago.ExpirationUnlockCondition:
			r = append(r, u.ReturnAddress)
		}
	}
	return
}

// RefHasManalock: the output is locked beyond the slot to the account itself.
func RefHasManalock(o iotago.Output, id iotago.AccountID, slot uint32) bool {
	cs := condsOf(o)
	a, ok := cs.addr.(*iotago.AccountAddress)
	return ok && *a == iotago.AccountAddress(id) && cs.tl != nil && slot < uint32(cs.tl.Slot)
}
