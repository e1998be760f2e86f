package kit

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
)

// Scn builds a transaction with its execution context, element by element. Every element is valid by itself; deviations
// (drawn from a small budget, mostly where the focus is) break a rule here and there. The verdict is the reference's.
type Scn struct {
	*G
	M         *ManaModel
	Focus     string
	budget    int
	Devs      []string
	Parts     []string
	multis    []iotago.Address
	NoMulti   bool // no multi address owns an input
	Commit    uint32
	NoC       bool
	Created   uint32
	caps      byte
	ins       []VMIn
	outs      []iotago.Output
	bic       map[[32]byte]int64
	rewards   map[int]uint64
	allot     map[[32]byte]uint64
	own       []iotago.Address // addresses of consumed outputs (unwrapped owners)
	chains    []iotago.Address // chain addresses unlocked by inputs so far
	issuers   []issuerAcc
	pretended []pretended
	fund      int
	rem       *iotago.BasicOutput
	past      uint32
	future    uint32
	msg       [32]byte
}

// pretended is a chain address that is treated as unlocked by an input.
type pretended struct {
	in int
	id string
}

type issuerAcc struct {
	in     int
	next   *iotago.AccountOutput
	locked *iotago.BasicOutput
}

// NewScn starts a scenario.
func NewScn(rt *rapid.T, focus string) *Scn {
	g := &G{T: rt, E: GenEnv(rt)}
	s := &Scn{G: g, M: g.E.Model(), Focus: focus, bic: map[[32]byte]int64{}, rewards: map[int]uint64{}, allot: map[[32]byte]uint64{}, fund: -1}
	switch b := g.Int(0, 99, "budget"); {
	case b < 35:
	case b < 85:
		s.budget = 1
	default:
		s.budget = 2
	}
	if focus == "C45" { // many rules at once
		s.budget = g.Int(0, 6, "deviations")
	}
	s.slots()
	return s
}

// slots places the commitment so that the bounded slots fall around epoch and registration boundaries often.
func (s *Scn) slots() {
	e := s.E
	ep := uint32(s.Int(0, 6, "cepoch"))
	start := e.GenesisSlot + ep<<e.EpochExp
	size := uint32(1) << e.EpochExp
	d := func(l string) uint32 { return uint32(s.Int(-2, 2, l)) }
	var c uint32
	switch s.Int(0, 5, "cpos") {
	case 0:
		c = start + size - e.MaxCA + d("cd")
	case 1:
		c = start + size - e.MinCA + d("cd")
	case 2:
		c = start + size - 1 - e.Nearing - e.MaxCA + d("cd")
	case 3:
		c = start + size - 1 - e.Nearing - e.MinCA + d("cd")
	default:
		c = start + uint32(s.Int(0, int(size-1), "coff"))
	}
	if int32(c-e.GenesisSlot) < 0 {
		c = e.GenesisSlot
	}
	s.Commit = c
	s.past, s.future = c+e.MaxCA, c+e.MinCA
	s.Created = c + uint32(s.Int(int(e.MinCA), int(e.MaxCA), "created"))
	if s.Rare(8, "created.far") {
		s.Created = c + uint32(s.Int(0, 3*int(size), "created.off"))
	}
	if s.dev("no commitment", "C20", "C22", "C23") {
		s.NoC = true
	}
}

// dev spends a deviation.
func (s *Scn) dev(label string, props ...string) bool {
	if s.budget == 0 {
		return false
	}
	n := 40
	for _, p := range props {
		if p == s.Focus {
			n = 6
		}
	}
	if s.Focus == "C45" {
		n = 14
	}
	if s.Rare(n, "dev "+label) {
		s.budget--
		s.Devs = append(s.Devs, label)
		return true
	}
	return false
}

func (s *Scn) part(l string) { s.Parts = append(s.Parts, l) }

// atMost draws a value that is at most b, or just above when deviating.
func (s *Scn) atMost(b uint32, l string, props ...string) uint32 {
	if s.dev(l+" above", props...) {
		if s.Bool(l + ".just") {
			return b + 1
		}
		return b + 1 + uint32(s.Int(0, 1000, l+".more"))
	}
	switch s.Int(0, 3, l+".pos") {
	case 0:
		return b
	case 1:
		return max(1, b) - 1
	}
	return b - uint32(s.Int(0, int(min(b, 5000)), l+".less"))
}

// atLeast draws a value that is at least b, or just below when deviating.
func (s *Scn) atLeast(b uint32, l string, props ...string) uint32 {
	if b > 0 && s.dev(l+" below", props...) {
		if s.Bool(l + ".just") {
			return b - 1
		}
		return b - uint32(s.Int(1, int(min(b, 1000)), l+".less"))
	}
	switch s.Int(0, 4, l+".pos") {
	case 0, 1:
		return b
	case 2:
		return b + 1
	case 3:
		return b + uint32(s.Int(0, 5000, l+".more"))
	}
	return ^uint32(0)
}

func (s *Scn) inSlot(l string) uint32 {
	if s.dev("input younger than transaction", "C16") {
		return s.Created + 1
	}
	span := s.Created - s.E.GenesisSlot
	switch s.Int(0, 3, l+".age") {
	case 0:
		return s.Created
	case 1:
		return s.Created - min(span, uint32(s.Int(0, 50, l+".recent")))
	}
	return s.E.GenesisSlot + uint32(s.Int(0, int(span), l+".slot"))
}

// in adds a consumed output.
func (s *Scn) in(o iotago.Output, l string) int {
	var id iotago.OutputID
	copy(id[:], Expand(uint64(s.Int(1, 1<<40, l+".txid")), 32))
	id[0] = byte(len(s.ins)) // distinct
	slot := s.inSlot(l)
	for i := 0; i < 4; i++ {
		id[32+i] = byte(slot >> (8 * i))
	}
	id[36] = byte(s.Int(0, 127, l+".idx"))
	s.ins = append(s.ins, VMIn{id, o})
	i := len(s.ins) - 1
	if (s.Focus == "C18" || s.Focus == "C19") && s.Rare(8, l+".pretend") {
		s.pretend(i, l)
	}
	return i
}

// pretend lets later inputs belong to a chain address made of the identifier of an input, whether or not the input
// unlocks it: the output may not be a chain, be a chain of another kind, or an anchor that is governed or destroyed.
func (s *Scn) pretend(i int, l string) {
	k, ok := InChainKey(s.ins[i])
	if !ok {
		d := RefChainFromOutput(s.ins[i].ID)
		k = "A" + string(d[:])
	}
	if k[0] == 'F' {
		k = "A" + k[2:]
	}
	if k[0] == 'D' || s.Rare(4, l+".kind") {
		k = string("AXN"[s.Int(0, 2, l+".pkind")]) + k[1:]
	}
	a := chainAddr(k)
	s.chains = append(s.chains, a)
	s.pretended = append(s.pretended, pretended{i, RefAddrID(a)})
	s.part("inputs of a chain that may not be unlocked")
}

func (s *Scn) out(o iotago.Output) int {
	s.outs = append(s.outs, o)
	return len(s.outs) - 1
}

// unlocked makes the chain address usable by later inputs.
func (s *Scn) unlocked(i int) {
	if k, ok := InChainKey(s.ins[i]); ok {
		if a := chainAddr(k); a != nil {
			s.chains = append(s.chains, a)
		}
	}
}

const directKeys = 6 // keys below own outputs directly, keys above are members of multi addresses

func (s *Scn) edAddr(l string) iotago.Address {
	return keys[s.Int(0, directKeys-1, l)].Addr
}

// multi draws a multi address of keys and chains of this transaction.
func (s *Scn) multi(l string) *iotago.MultiAddress {
	n := s.Int(2, 5, l+".n")
	m := map[string]iotago.Address{}
	for i := 0; i < n; i++ {
		var a iotago.Address
		switch k := s.Int(0, 9, l+".kind"); {
		case k < 2 && len(s.chains) > 0:
			a = s.chains[s.Int(0, len(s.chains)-1, l+".chain")]
		case k == 2 && len(s.own) > 0:
			a = s.own[s.Int(0, len(s.own)-1, l+".own")]
			if _, ok := a.(*iotago.MultiAddress); ok || isImplicit(a) {
				a = s.key(s.Int(directKeys, len(keys)-1, l+".key"))
			}
		case k == 3:
			b := s.B32(l + ".foreign")
			x := iotago.NFTAddress(b)
			a = &x
		default:
			a = s.key(s.Int(directKeys, len(keys)-1, l+".key"))
		}
		m[RefAddrID(a)] = a
	}
	for i := directKeys; len(m) < 2; i++ {
		m[RefAddrID(keys[i].Addr)] = keys[i].Addr
	}
	var ids []string
	for k := range m {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	r := &iotago.MultiAddress{}
	sum := 0
	for _, k := range ids {
		w := s.Int(1, 255, l+".w")
		if s.Bool(l + ".small") {
			w = 1 + w%3
		}
		sum += w
		r.Addresses = append(r.Addresses, &iotago.AddressWithWeight{Address: m[k], Weight: byte(w)})
	}
	switch s.Int(0, 3, l+".thr") {
	case 0:
		r.Threshold = uint16(sum)
	case 1:
		r.Threshold = uint16(max(1, sum-1))
	default:
		r.Threshold = uint16(s.Int(1, sum, l+".t"))
	}
	return r
}

func (s *Scn) key(i int) iotago.Address { return keys[i].Addr }

// ownerAddr draws an address that this transaction can unlock for the next input.
func (s *Scn) ownerAddr(l string) iotago.Address {
	n := map[bool]int{true: 9, false: 3}[s.Focus == "C18" || s.Focus == "C19" || s.Focus == "C25"]
	var a iotago.Address
	switch k := s.Int(0, 13, l+".okind"); {
	case k < n && k%3 != 1 && len(s.chains) > 0:
		a = s.chains[s.Int(0, len(s.chains)-1, l+".ochain")]
	case k < n && k%3 == 1:
		if len(s.own) > 0 && s.Rare(3, l+".same") {
			a = s.own[s.Int(0, len(s.own)-1, l+".sameown")]
			if isImplicit(a) {
				a = s.edAddr(l + ".okey")
			}
		} else if s.NoMulti {
			a = s.edAddr(l + ".okey")
		} else if len(s.multis) > 0 && (s.Focus == "C19" || s.Rare(3, l+".samemulti")) && s.Bool(l+".again") {
			a = s.multis[s.Int(0, len(s.multis)-1, l+".multiown")]
		} else {
			a = s.multi(l + ".multi")
			s.multis = append(s.multis, a)
		}
	default:
		a = s.edAddr(l + ".okey")
	}
	s.own = append(s.own, a)
	return s.wrap(a, l)
}

// wrap restricts an address now and then, with all permissions.
func (s *Scn) wrap(a iotago.Address, l string) iotago.Address {
	if isImplicit(a) {
		return a
	}
	if s.Rare(10, l+".wrap") {
		return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: CapsMask(0x1ff)}
	}
	return a
}

// anyAddr draws a recipient.
func (s *Scn) anyAddr(l string) iotago.Address {
	switch s.Int(0, 5, l+".rk") {
	case 0:
		if len(s.own) > 0 {
			a := s.own[s.Int(0, len(s.own)-1, l+".rown")]
			if !isImplicit(a) {
				return s.wrap(a, l)
			}
		}
	case 1:
		a := iotago.AccountAddress(s.B32(l + ".racc"))
		a[0] |= 1
		return s.wrap(&a, l)
	case 2:
		a := iotago.NFTAddress(s.B32(l + ".rnft"))
		a[0] |= 1
		return s.wrap(&a, l)
	case 3:
		if len(s.chains) > 0 {
			return s.wrap(s.chains[s.Int(0, len(s.chains)-1, l+".rchain")], l)
		}
	}
	return s.wrap(keys[s.Int(0, len(keys)-1, l+".rkey")].Addr, l)
}

// knownAddr draws an address that is (or will be) unlocked by this transaction, or another one when deviating.
func (s *Scn) knownAddr(l string, props ...string) iotago.Address {
	if s.dev(l+" foreign", props...) {
		switch s.Int(0, 6, l+".fk") {
		case 5: // the other address of a key that signs
			var at []iotago.Address
			for _, a := range s.own {
				switch a := a.(type) {
				case *iotago.ImplicitAccountCreationAddress:
					e := iotago.Ed25519Address(*a)
					at = append(at, &e, &e, &e)
				case *iotago.Ed25519Address:
					i := iotago.ImplicitAccountCreationAddress(*a)
					at = append(at, &i)
				}
			}
			if len(at) > 0 {
				return at[s.Int(0, len(at)-1, l+".fo")]
			}
		case 6: // a member of a multi address is not unlocked with it
			for _, a := range s.own {
				if m, ok := a.(*iotago.MultiAddress); ok {
					return m.Addresses[s.Int(0, len(m.Addresses)-1, l+".fmm")].Address
				}
			}
		case 0:
			return keys[s.Int(0, len(keys)-1, l+".fkey")].Addr
		case 1:
			if len(s.chains) > 0 { // same identifier, other kind
				var b [32]byte
				copy(b[:], RefAddrID(s.chains[0])[1:])
				switch s.Int(0, 3, l+".fki") {
				case 0:
					a := iotago.AnchorAddress(b)
					return &a
				case 1:
					a := iotago.AccountAddress(b)
					return &a
				case 2:
					a := iotago.Ed25519Address(b)
					return &a
				}
				a := iotago.NFTAddress(b)
				return &a
			}
		case 2:
			return s.multi(l + ".fm")
		case 3:
			a := iotago.AnchorAddress(s.B32(l + ".fx"))
			return &a
		}
		a := iotago.AccountAddress(s.B32(l + ".fa"))
		return &a
	}
	all := append(append([]iotago.Address{}, s.own...), s.chains...)
	if len(all) == 0 {
		return s.fundAddr()
	}
	a := all[s.Int(0, len(all)-1, l+".known")]
	return s.wrap(a, l)
}

func (s *Scn) fundAddr() iotago.Address {
	if s.fund < 0 {
		s.addFund()
	}
	return condsOf(s.ins[s.fund].Out).addr
}

func (s *Scn) addFund() {
	a := s.edAddr("fund.key")
	s.own = append(s.own, a)
	s.fund = s.in(&iotago.BasicOutput{Amount: 1, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}}, "fund")
	o := s.ins[s.fund].Out.(*iotago.BasicOutput)
	o.Mana = s.stored("fund.mana")
}

func (s *Scn) stored(l string) iotago.Mana {
	if s.dev("huge mana", "C16") {
		return iotago.Mana(^uint64(0) - uint64(s.Int(0, 3, l+".huge")))
	}
	switch s.Int(0, 3, l+".mk") {
	case 0:
		return 0
	case 1:
		return iotago.Mana(s.Int(0, 1000, l+".msmall"))
	}
	return iotago.Mana(s.U64Max(1<<min(50, uint(s.E.Bits-5)), l+".m"))
}

// setAmount gives an output an amount covering its deposit.
func (s *Scn) setAmount(o iotago.Output, l string) {
	d := RefMinDeposit(s.E.Spec, o).Uint64()
	if sdr := condsOf(o).sdr; sdr != nil {
		d = max(d, uint64(sdr.Amount))
	}
	if st := featsOf(o).stk; st != nil {
		d = max(d, uint64(st.StakedAmount))
	}
	extra := uint64(0)
	switch s.Int(0, 3, l+".ak") {
	case 0:
	case 1:
		extra = uint64(s.Int(0, 100, l+".asmall"))
	default:
		extra = uint64(s.Int(0, 1<<32, l+".alarge"))
	}
	amt := iotago.BaseToken(max(1, d+extra))
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.Amount = amt
	case *iotago.AccountOutput:
		o.Amount = amt
	case *iotago.AnchorOutput:
		o.Amount = amt
	case *iotago.NFTOutput:
		o.Amount = amt
	case *iotago.FoundryOutput:
		o.Amount = amt
	case *iotago.DelegationOutput:
		o.Amount = amt
	}
}

// ---- elements

// timed draws the optional conditions of a consumed basic or NFT output; the address that may consume it is at hand already.
func (s *Scn) timed(l string) (ucs []iotago.UnlockCondition) {
	p := map[bool]int{true: 2, false: 5}[s.Focus == "C20" || s.Focus == "C15"]
	if s.Rare(p, l+".sdr?") {
		ret := s.knownOrAny(l + ".sdr")
		min := max(1, RefMinReturn(s.E.Spec, ret).Uint64())
		ucs = append(ucs, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ret, Amount: iotago.BaseToken(min + uint64(s.Int(0, 1000, l+".sdrx")))})
	}
	if s.Rare(p, l+".tl?") {
		ucs = append(ucs, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(max(1, s.atMost(s.future, l+".timelock", "C20")))})
	}
	if s.Rare(p, l+".ex?") {
		var slot uint32
		switch {
		case s.dev(l+" expiration in between", "C20"):
			slot = s.future + 1 + uint32(s.Int(0, int(s.E.MaxCA-s.E.MinCA)-1, l+".exd"))
		case s.Bool(l + ".expired"):
			slot = max(1, s.atMost(s.future, l+".expiration"))
		default:
			slot = max(1, s.atLeast(s.past+1, l+".expiration"))
		}
		var ret iotago.Address
		if r, ok := first[*iotago.StorageDepositReturnUnlockCondition](ucs); ok && s.Bool(l+".exsame") {
			// goes back to the one its deposit is owed to
			ret = r.ReturnAddress
			if s.Rare(4, l+".exsamewrap") {
				ret = flipWrap(ret)
			}
		} else {
			ret = s.knownOrAny(l + ".exr")
		}
		ucs = append(ucs, &iotago.ExpirationUnlockCondition{ReturnAddress: ret, Slot: iotago.SlotIndex(slot)})
	}
	return
}

// knownOrAny draws mostly an address the transaction can unlock.
func (s *Scn) knownOrAny(l string) iotago.Address {
	if s.Rare(4, l+".any") {
		return s.wrap(keys[s.Int(0, len(keys)-1, l+".anyk")].Addr, l)
	}
	return s.ownerAddr(l)
}

func (s *Scn) consumeBasic() {
	s.part("basic in")
	o := &iotago.BasicOutput{Mana: s.stored("bi.mana"), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: s.ownerAddr("bi")}}}
	for _, u := range s.timed("bi") {
		o.UnlockConditions = append(o.UnlockConditions, u)
	}
	if s.Rare(4, "bi.tag") {
		o.Features = append(o.Features, s.TagFeat("bi.tagf"))
	}
	if n := s.Rare(4, "bi.nt"); n {
		s.foreignToken(o)
	}
	s.setAmount(o, "bi")
	i := s.in(o, "bi")
	s.payReturns(i)
}

// sameKey consumes an implicit account and outputs that went back to the other address of its key: one signature
// unlocks both addresses, and what is owed to the unlocking address need not be paid.
func (s *Scn) sameKey() {
	n := len(s.own)
	s.implicit()
	imp, ok := s.own[min(n, len(s.own)-1)].(*iotago.ImplicitAccountCreationAddress)
	if !ok {
		return
	}
	s.part("outputs returned to the key of an implicit account")
	back := iotago.Ed25519Address(*imp)
	for range s.Int(1, 3, "sk.n") {
		o := &iotago.BasicOutput{Mana: s.stored("sk.mana"), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: s.anyAddr("sk")}}}
		expires := s.Int(0, 3, "sk.ex") > 0
		if !expires {
			o.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: s.wrap(&back, "sk.o")}
		}
		if s.Int(0, 3, "sk.sdr?") > 0 {
			ret := s.wrap(&back, "sk.r")
			o.UnlockConditions = append(o.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ret, Amount: iotago.BaseToken(max(1, RefMinReturn(s.E.Spec, ret).Uint64()) + uint64(s.Int(0, 1000, "sk.sdr")))})
		}
		if expires {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: s.wrap(&back, "sk.e"), Slot: iotago.SlotIndex(max(1, s.atMost(s.future, "sk.slot")))})
		}
		s.setAmount(o, "sk")
		i := s.in(o, "sk")
		if s.Bool("sk.paid") {
			s.payReturns(i)
		}
	}
}

// payReturns adds outputs paying what a consumed output owes.
func (s *Scn) payReturns(i int) {
	r := condsOf(s.ins[i].Out).sdr
	if r == nil {
		return
	}
	s.part("storage deposit return")
	if s.dev("no return", "C15") {
		return
	}
	if e := condsOf(s.ins[i].Out).ex; e != nil && uint32(e.Slot) <= s.future && RefAddrID(resolve(e.ReturnAddress)) == RefAddrID(resolve(r.ReturnAddress)) && s.Int(0, 3, "own return") > 0 {
		s.part("nothing to return to oneself")
		return
	}
	amt := r.Amount
	if s.dev("short return", "C15") {
		amt--
	}
	pay := func(a iotago.BaseToken) *iotago.BasicOutput {
		o := &iotago.BasicOutput{Amount: a, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: r.ReturnAddress}}}
		s.out(o)
		return o
	}
	min := iotago.BaseToken(RefMinReturn(s.E.Spec, r.ReturnAddress).Uint64())
	switch {
	case amt >= 2*min && min > 0 && s.Bool("return split"):
		pay(min)
		pay(amt - min)
	case s.dev("return not simple", "C15"):
		o := pay(amt + iotago.BaseToken(s.E.StorageCost)*1000)
		switch s.Int(0, 2, "ns") {
		case 0:
			o.Features = iotago.BasicOutputFeatures{&iotago.TagFeature{Tag: []byte{1}}}
		case 1:
			o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: 1})
		default:
			o.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: flipWrap(r.ReturnAddress)}
		}
	default:
		pay(amt)
	}
}

func first[T any](ucs []iotago.UnlockCondition) (z T, ok bool) {
	for _, u := range ucs {
		if t, is := u.(T); is {
			return t, true
		}
	}
	return z, false
}

func flipWrap(a iotago.Address) iotago.Address {
	if r, ok := a.(*iotago.RestrictedAddress); ok {
		return r.Address
	}
	return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: CapsMask(0x1ff)}
}

func (s *Scn) amount256(l string) *big.Int {
	if s.Rare(4, l+".big") {
		return new(big.Int).Add(new(big.Int).Rsh(s.U256(l+".b"), 2), big.NewInt(1))
	}
	return big.NewInt(int64(s.Int(1, 1000, l+".s")))
}

// foreignToken puts native tokens of a foundry outside of the transaction on a consumed output and passes them on.
func (s *Scn) foreignToken(in *iotago.BasicOutput) {
	s.part("native token")
	id := s.FoundryID("ft.id")
	id[0] = byte(iotago.AddressAccount)
	if s.Rare(3, "ft.common") {
		id = iotago.FoundryID{}
		id[0] = byte(iotago.AddressAccount)
		id[1] = 9
	}
	a := s.amount256("ft")
	in.Features = append(in.Features, &iotago.NativeTokenFeature{ID: id, Amount: new(big.Int).Set(a)})
	out := new(big.Int).Set(a)
	if s.Rare(4, "ft.burn") {
		out.Sub(out, big.NewInt(int64(s.Int(1, 3, "ft.burned"))))
		if out.Sign() < 0 {
			out.SetInt64(0)
		}
		s.allow(0, "C17")
	}
	if s.dev("native token created", "C17") {
		out.Add(out, big.NewInt(1))
	}
	s.sendTokens(id, out)
	if s.dev("native token from nowhere", "C17") {
		id[5] ^= 1
		s.sendTokens(id, big.NewInt(1))
	}
}

// sendTokens puts an amount of native tokens on one or two outputs.
func (s *Scn) sendTokens(id iotago.FoundryID, x *big.Int) {
	put := func(v *big.Int) {
		if v.Sign() <= 0 {
			return
		}
		o := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: s.anyAddr("nto")}}, Features: iotago.BasicOutputFeatures{&iotago.NativeTokenFeature{ID: id, Amount: v}}}
		s.setAmount(o, "nto")
		s.out(o)
	}
	if x.Cmp(big.NewInt(1)) > 0 && s.Rare(3, "nto.split") {
		h := new(big.Int).Rsh(x, 1)
		put(h)
		put(new(big.Int).Sub(x, h))
		return
	}
	put(new(big.Int).Set(x))
}

// allow sets a capability bit, unless deviating.
func (s *Scn) allow(bit uint, props ...string) {
	if s.dev(fmt.Sprintf("capability %d missing", bit), props...) {
		return
	}
	s.caps |= 1 << bit
}

func (s *Scn) payBasic() {
	s.part("basic out")
	o := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: s.anyAddr("bo")}}}
	if s.Rare(3, "bo.imp") {
		o.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: keys[s.Int(0, len(keys)-1, "bo.impk")].Imp}
	} else {
		if s.Rare(5, "bo.sdr") {
			ret := s.anyAddr("bo.sdra")
			o.UnlockConditions = append(o.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ret, Amount: iotago.BaseToken(RefMinReturn(s.E.Spec, ret).Uint64())})
		}
		if s.Rare(5, "bo.tl") {
			o.UnlockConditions = append(o.UnlockConditions, s.TL("bo"))
		}
		if s.Rare(5, "bo.ex") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: s.anyAddr("bo.exa"), Slot: 7})
		}
		if s.Rare(map[bool]int{true: 2, false: 5}[s.Focus == "C25"], "bo.sender") {
			s.part("sender")
			o.Features = append(o.Features, &iotago.SenderFeature{Address: s.knownAddr("sender", "C25")})
		}
		if s.Rare(5, "bo.meta") {
			o.Features = append(o.Features, s.MetaFeat("bo.metaf"))
		}
	}
	s.setAmount(o, "bo")
	s.out(o)
}

// imm draws immutable features of a chain created (issuer known) or existing (issuer any).
func (s *Scn) imm(genesis bool, l string, meta bool) (r []iotago.Feature) {
	if s.Rare(3, l+".issuer") {
		a := s.anyAddr(l + ".issuera")
		if genesis {
			s.part("issuer")
			a = s.knownAddr(l+" issuer", "C25", "C21")
		}
		r = append(r, &iotago.IssuerFeature{Address: a})
	}
	if meta && s.Rare(3, l+".immmeta") {
		r = append(r, s.MetaFeat(l+".immm"))
	}
	return
}

// immDev changes immutable features.
func (s *Scn) immDev(r []iotago.Feature, l string) []iotago.Feature {
	if !s.dev(l+" immutable features", "C21", "C17") {
		return r
	}
	c := append([]iotago.Feature{}, r...)
	switch {
	case len(c) > 0 && s.Bool(l+".drop"):
		return c[1:]
	case len(c) > 0:
		switch f := c[0].(type) {
		case *iotago.IssuerFeature:
			c[0] = &iotago.IssuerFeature{Address: flipWrap(f.Address)}
		case *iotago.MetadataFeature:
			m := iotago.MetadataFeatureEntries{}
			for k, v := range f.Entries {
				m[k] = append(append(iotago.MetadataFeatureEntriesValue{}, v...), 1)
			}
			c[0] = &iotago.MetadataFeature{Entries: m}
		}
		return c
	}
	return []iotago.Feature{s.MetaFeat(l + ".immnew")}
}

func (s *Scn) someMeta(fs []iotago.Feature, l string) []iotago.Feature {
	if s.Rare(4, l+".meta?") {
		return append(fs, s.MetaFeat(l+".metaf"))
	}
	return fs
}

func (s *Scn) someSender(l string) (fs []iotago.Feature) {
	if s.Rare(map[bool]int{true: 3, false: 12}[s.Focus == "C25"], l+".sender?") {
		s.part("sender")
		return []iotago.Feature{&iotago.SenderFeature{Address: s.knownAddr(l+" sender", "C25")}}
	}
	return
}

func (s *Scn) zeroID(l string, props ...string) (r [32]byte) {
	if s.dev(l+" identifier from nowhere", props...) {
		return s.B32(l + ".nowhere")
	}
	return
}

func (s *Scn) existingID(l string) (r [32]byte) {
	if s.Rare(3, l+".fresh") {
		return
	}
	r = s.B32(l + ".id")
	r[31] = byte(len(s.ins)) + 1
	return
}

func (s *Scn) nft() {
	mode := s.Int(0, 3, "nft.mode")
	if mode == 0 {
		s.part("NFT created")
		o := &iotago.NFTOutput{NFTID: s.zeroID("NFT", "C21"), UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: s.anyAddr("nft.a")}}}
		SetParts(o, []iotago.UnlockCondition{o.UnlockConditions[0]}, s.someMeta(s.someSender("nft"), "nft"), s.imm(true, "nft", true))
		s.setAmount(o, "nft")
		s.out(o)
		return
	}
	cur := &iotago.NFTOutput{NFTID: s.existingID("nft"), Mana: s.stored("nft.mana")}
	imm := s.imm(false, "nft", true)
	SetParts(cur, append([]iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: s.ownerAddr("nft.o")}}, s.timed("nft")...), s.someMeta(nil, "nft"), imm)
	s.setAmount(cur, "nft")
	i := s.in(cur, "nft")
	s.unlocked(i)
	s.payReturns(i)
	if mode == 1 {
		s.part("NFT destroyed")
		s.allow(5, "C21")
		return
	}
	s.part("NFT transition")
	next := &iotago.NFTOutput{NFTID: s.nextID(i)}
	SetParts(next, []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: s.notSelf(s.anyAddr("nft.n"), i)}}, s.someMeta(s.someSender("nftn"), "nftn"), s.immDev(imm, "NFT"))
	s.setAmount(next, "nftn")
	s.out(next)
}

func (s *Scn) notSelf(a iotago.Address, i int) iotago.Address {
	k, _ := InChainKey(s.ins[i])
	if RefAddrID(resolve(a)) == RefAddrID(chainAddr(k)) {
		return keys[0].Addr
	}
	return a
}

func (s *Scn) nextID(i int) (r [32]byte) {
	k, _ := InChainKey(s.ins[i])
	copy(r[:], k[1:])
	if s.dev("identifier changed", "C21") {
		r[3] ^= 1
	}
	return
}

func (s *Scn) anchor() {
	mode := s.Int(0, 5, "anc.mode")
	addrs := func(sc, gov iotago.Address) []iotago.UnlockCondition {
		return []iotago.UnlockCondition{&iotago.StateControllerAddressUnlockCondition{Address: sc}, &iotago.GovernorAddressUnlockCondition{Address: gov}}
	}
	smeta := func(fs []iotago.Feature, l string) []iotago.Feature {
		if s.Rare(3, l) {
			return append(fs, s.StateMetaFeat(l+".f"))
		}
		return fs
	}
	if mode == 0 {
		s.part("anchor created")
		o := &iotago.AnchorOutput{AnchorID: s.zeroID("anchor", "C21")}
		SetParts(o, addrs(s.anyAddr("anc.s"), s.anyAddr("anc.g")), smeta(s.someMeta(nil, "anc"), "anc.sm"), s.imm(true, "anc", true))
		s.setAmount(o, "anc")
		s.out(o)
		return
	}
	state := mode >= 3
	cur := &iotago.AnchorOutput{AnchorID: s.existingID("anc"), Mana: s.stored("anc.mana")}
	if cur.AnchorID != (iotago.AnchorID{}) {
		cur.StateIndex = uint32(s.Int(0, 1000, "anc.si"))
		if s.Rare(20, "anc.simax") {
			cur.StateIndex = ^uint32(0) - 1
		}
	}
	sc, gov := s.anyAddr("anc.os"), s.anyAddr("anc.og")
	if state {
		sc = s.ownerAddr("anc.os2")
	} else {
		gov = s.ownerAddr("anc.og2")
	}
	if s.Rare(6, "anc.both") {
		sc = s.ownerAddr("anc.os3")
		gov = sc
	}
	imm := s.imm(false, "anc", true)
	meta := s.someMeta(nil, "ancc")
	sm := smeta(nil, "ancc.sm")
	SetParts(cur, addrs(sc, gov), append(append([]iotago.Feature{}, meta...), sm...), imm)
	s.setAmount(cur, "anc")
	i := s.in(cur, "anc")
	if mode == 1 {
		s.part("anchor destroyed")
		s.allow(3, "C21")
		return
	}
	next := &iotago.AnchorOutput{AnchorID: s.nextID(i), StateIndex: cur.StateIndex, Amount: cur.Amount}
	imm = s.immDev(imm, "anchor")
	if state {
		s.part("anchor state transition")
		s.unlocked(i)
		next.StateIndex++
		sm = smeta(nil, "ancn.sm")
		if s.dev("anchor controllers", "C21") {
			if s.Bool("anc.which") {
				sc = flipWrap(sc)
			} else {
				gov = flipWrap(gov)
			}
		}
		if s.dev("anchor metadata", "C21") {
			meta = otherMeta(meta)
		}
	} else {
		s.part("anchor governance transition")
		sc, gov = s.notSelf(s.anyAddr("anc.ns"), i), s.notSelf(s.anyAddr("anc.ng"), i)
		meta = s.someMeta(nil, "ancn")
		if s.dev("anchor state metadata", "C21") {
			if len(sm) > 0 {
				sm = nil
			} else {
				sm = []iotago.Feature{s.StateMetaFeat("anc.newsm")}
			}
		}
	}
	if s.dev("anchor state index", "C21") {
		next.StateIndex += uint32(s.Int(-2, 2, "anc.dsi"))
	}
	SetParts(next, addrs(s.notSelf(sc, i), s.notSelf(gov, i)), append(append([]iotago.Feature{}, meta...), sm...), imm)
	if state {
		s.setAmount(next, "ancn")
	} else if s.dev("anchor amount", "C21") {
		next.Amount++
	}
	s.out(next)
}

func otherMeta(m []iotago.Feature) []iotago.Feature {
	if len(m) > 0 {
		return nil
	}
	return []iotago.Feature{&iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": []byte("v")}}}
}

func (s *Scn) delegation() {
	val := iotago.AccountAddress(s.B32("del.val"))
	val[0] |= 1
	ex := map[bool]uint32{true: 1}
	mode := s.Int(0, 3, "del.mode")
	ep := func(slot uint32) uint32 {
		e := s.M.Epoch(slot)
		end := s.E.GenesisSlot + (e+1)<<s.E.EpochExp - 1 - s.E.Nearing
		return e + ex[slot > end]
	}
	uc := func(a iotago.Address) []iotago.UnlockCondition {
		return []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: a}}
	}
	if mode == 0 {
		s.part("delegation created")
		o := &iotago.DelegationOutput{DelegationID: s.zeroID("delegation", "C23", "C21"), ValidatorAddress: &val, StartEpoch: iotago.EpochIndex(ep(s.past) + 1)}
		if s.dev("delegation start epoch", "C23") {
			o.StartEpoch += iotago.EpochIndex([]int{-1, 1, -2}[s.Int(0, 2, "del.dse")])
		}
		if s.dev("delegation end epoch", "C23") {
			o.EndEpoch = iotago.EpochIndex(s.Int(1, 20, "del.de"))
		}
		SetParts(o, uc(s.anyAddr("del.a")), nil, nil)
		s.setAmount(o, "del")
		o.DelegatedAmount = o.Amount
		if s.dev("delegated amount", "C23") {
			if s.Bool("del.minus") {
				o.DelegatedAmount--
			} else {
				o.DelegatedAmount++
			}
		}
		s.out(o)
		return
	}
	cur := &iotago.DelegationOutput{DelegationID: s.existingID("del"), ValidatorAddress: &val, StartEpoch: iotago.EpochIndex(s.Int(0, 9, "del.se"))}
	SetParts(cur, uc(s.ownerAddr("del.o")), nil, nil)
	s.setAmount(cur, "delc")
	cur.DelegatedAmount = cur.Amount
	if cur.DelegationID != (iotago.DelegationID{}) {
		cur.EndEpoch = iotago.EpochIndex(s.Int(1, 9, "del.ee"))
		if mode > 1 && !s.dev("delegation transitioned twice", "C23") {
			cur.DelegationID = iotago.DelegationID{}
			cur.EndEpoch = 0
		}
	}
	i := s.in(cur, "del")
	if mode == 1 {
		s.part("delegation destroyed")
		if !s.dev("delegation rewards not claimed", "C23") {
			s.rewards[i] = s.reward("del.rew")
		}
		return
	}
	s.part("delegation transition")
	nv := val
	next := &iotago.DelegationOutput{DelegationID: s.nextID(i), ValidatorAddress: &nv, StartEpoch: cur.StartEpoch, EndEpoch: iotago.EpochIndex(ep(s.future)), DelegatedAmount: cur.DelegatedAmount}
	SetParts(next, uc(s.anyAddr("del.n")), nil, nil)
	s.setAmount(next, "deln")
	if s.Bool("del.sameamount") {
		next.Amount = max(cur.Amount, iotago.BaseToken(RefMinDeposit(s.E.Spec, next).Uint64()))
	}
	if s.dev("delegation rewards in transition", "C23") {
		s.rewards[i] = s.reward("del.rew")
	}
	if s.dev("delegation changed", "C23") {
		switch s.Int(0, 2, "del.ch") {
		case 0:
			d := s.Int(0, 2, "del.chd")
			next.DelegatedAmount += iotago.BaseToken([]uint64{1, ^uint64(0), uint64(next.Amount - next.DelegatedAmount)}[d])
		case 1:
			nv[31] ^= 1
		default:
			next.StartEpoch++
		}
	}
	if s.dev("delegation end epoch", "C23") {
		switch d := s.Int(0, 3, "del.dee"); {
		case d < 2:
			next.EndEpoch += iotago.EpochIndex([]int{-1, 1}[d])
		case d == 2:
			next.EndEpoch = cur.EndEpoch
		default:
			next.EndEpoch = iotago.EpochIndex(ep(s.past) + 1)
		}
	}
	if cur.DelegationID != (iotago.DelegationID{}) && s.Bool("del.again") {
		next.EndEpoch = cur.EndEpoch
	}
	if s.dev("delegation identifier stays zero", "C23") {
		next.DelegationID = iotago.DelegationID{}
	}
	s.out(next)
}

func (s *Scn) reward(l string) uint64 {
	return uint64(s.Int(0, 3, l+".k")) * uint64(s.Int(0, 1<<30, l))
}

func (s *Scn) bif(expiry uint32, l string) *iotago.BlockIssuerFeature {
	f := s.BIFeat(l)
	if len(f.BlockIssuerKeys) > 2 {
		f.BlockIssuerKeys = f.BlockIssuerKeys[:2]
	}
	f.ExpirySlot = iotago.SlotIndex(expiry)
	return f
}

func (s *Scn) credit(k string) {
	var id [32]byte
	copy(id[:], k[1:])
	if s.dev("credit missing", "C22", "C24") {
		return
	}
	s.bic[id] = int64([]int{0, 1, 1 << 40}[s.Int(0, 2, "bic")])
	if s.dev("credit negative", "C22", "C24") {
		s.bic[id] = -1 - int64(s.Int(0, 1<<40, "bicneg"))
	}
}

// newStake draws the feature of fresh staking.
func (s *Scn) newStake(l string) *iotago.StakingFeature {
	ep := s.M.Epoch(s.past)
	f := &iotago.StakingFeature{StakedAmount: iotago.BaseToken(s.Int(0, 1000, l+".amt")), FixedCost: iotago.Mana(s.Int(0, 100, l+".cost")), StartEpoch: iotago.EpochIndex(ep)}
	if s.dev("staking start", "C22") {
		f.StartEpoch += iotago.EpochIndex([]int{-1, 1}[s.Int(0, 1, l+".ds")])
	}
	f.EndEpoch = iotago.EpochIndex(s.atLeast(ep+s.E.Unbonding, "staking end", "C22"))
	return f
}

func (s *Scn) account() {
	mode := s.Int(0, 5, "acc.mode")
	if s.Focus == "C17" && mode < 2 {
		mode = 2
	}
	if mode == 0 {
		s.part("account created")
		o := &iotago.AccountOutput{AccountID: s.zeroID("account", "C21")}
		fs := s.someMeta(s.someSender("acc"), "acc")
		if s.Bool("acc.bi") {
			fs = append(fs, s.bif(s.atLeast(s.past, "expiry", "C22"), "acc.bif"))
			if s.Bool("acc.st") {
				fs = append(fs, s.newStake("acc.stake"))
			}
		}
		SetParts(o, []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: s.anyAddr("acc.a")}}, fs, s.imm(true, "acc", true))
		s.setAmount(o, "acc")
		s.out(o)
		return
	}
	cur := &iotago.AccountOutput{AccountID: s.existingID("acc"), Mana: s.stored("acc.mana")}
	if cur.AccountID != (iotago.AccountID{}) {
		cur.FoundryCounter = uint32(s.Int(0, 5, "acc.fc"))
	}
	imm := s.imm(false, "acc", true)
	fs := s.someMeta(nil, "accc")
	var b *iotago.BlockIssuerFeature
	var st *iotago.StakingFeature
	ended := s.Bool("acc.ended")
	expired := mode == 1 || s.Rare(3, "acc.expired")
	p := map[bool]int{true: 1, false: 3}[s.Focus == "C22"]
	if s.Rare(p, "acc.bi") {
		x := s.atLeast(s.Commit, "cur expiry")
		if expired && s.Commit > 0 && !s.dev("block issuer not expired", "C22") {
			x = s.atMost(s.Commit-1, "cur expiry")
		}
		b = s.bif(x, "acc.bif")
		fs = append(fs, b)
		if s.Bool("acc.st") {
			st = &iotago.StakingFeature{StakedAmount: iotago.BaseToken(s.Int(0, 1000, "acc.stamt")), FixedCost: iotago.Mana(s.Int(0, 100, "acc.cost"))}
			fe := s.M.Epoch(s.future)
			if mode == 1 {
				ended = !s.dev("staking not ended", "C22")
			}
			if ended && fe > 0 {
				st.EndEpoch = iotago.EpochIndex(s.atMost(fe-1, "stake end"))
			} else {
				st.EndEpoch = iotago.EpochIndex(s.atLeast(fe, "stake end"))
			}
			ended = uint32(st.EndEpoch) < fe
			st.StartEpoch = iotago.EpochIndex(s.Int(0, int(min(uint64(st.EndEpoch), 8)), "acc.start"))
			fs = append(fs, st)
		}
	}
	SetParts(cur, []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: s.ownerAddr("acc.o")}}, fs, imm)
	s.setAmount(cur, "acc")
	i := s.in(cur, "acc")
	s.unlocked(i)
	k, _ := InChainKey(s.ins[i])
	if b != nil {
		s.credit(k)
	} else if s.Rare(10, "acc.needless credit") {
		var id [32]byte
		copy(id[:], k[1:])
		s.bic[id] = int64(s.Int(-5, 5, "acc.anybic"))
	}
	claim := func(must bool) {
		if s.dev("rewards", "C22") {
			must = !must
		}
		if must {
			s.rewards[i] = s.reward("acc.rew")
		}
	}
	if mode == 1 {
		s.part("account destroyed")
		s.allow(2, "C21", "C22")
		claim(st != nil)
		return
	}
	s.part("account transition")
	next := &iotago.AccountOutput{AccountID: s.nextID(i), FoundryCounter: cur.FoundryCounter}
	nfs := s.someMeta(s.someSender("accn"), "accn")
	var nb *iotago.BlockIssuerFeature
	switch {
	case b != nil && (uint32(b.ExpirySlot) >= s.Commit || st != nil && !ended):
		if s.dev("block issuer dropped", "C22") {
			break
		}
		if s.Bool("accn.keep") {
			nb = s.bif(uint32(b.ExpirySlot), "accn.bif")
			if uint32(b.ExpirySlot) >= s.Commit {
				break
			}
		}
		nb = s.bif(s.atLeast(s.past, "new expiry", "C22"), "accn.bif")
	case b != nil && s.dev("expired block issuer kept", "C22"):
		nb = s.bif(uint32(b.ExpirySlot), "accn.bif")
		if s.Bool("accn.same") {
			x := *b
			nb = &x
		}
	case s.Bool("accn.bi"):
		nb = s.bif(s.atLeast(s.past, "new expiry", "C22"), "accn.bif")
	}
	if nb != nil {
		nfs = append(nfs, nb)
	}
	removing := false
	var ns *iotago.StakingFeature
	switch {
	case st == nil:
		if nb != nil && s.Bool("accn.st") {
			ns = s.newStake("accn.stake")
		}
		if s.dev("rewards without staking", "C22") {
			removing = true
		}
	case !ended:
		x := *st
		ns = &x
		switch {
		case s.dev("staking changed", "C22"):
			switch s.Int(0, 2, "accn.stch") {
			case 0:
				ns.StakedAmount++
			case 1:
				ns.FixedCost++
			default:
				ns.StartEpoch++
			}
		case s.dev("staking removed early", "C22"):
			ns = nil
			removing = s.Bool("accn.early claim")
		case s.Rare(3, "accn.extend"):
			ns.EndEpoch = iotago.EpochIndex(s.atLeast(max(s.M.Epoch(s.past)+s.E.Unbonding, 1), "staking end", "C22"))
		case s.dev("staking shortened", "C22"):
			ns.EndEpoch = st.EndEpoch - 1
		}
	default:
		switch s.Int(0, 2, "accn.ended") {
		case 0:
			removing = true
		case 1:
			if nb != nil {
				x := *st
				ns = &x
				if s.dev("ended staking changed", "C22") {
					switch s.Int(0, 3, "accn.ench") {
					case 0:
						ns.StakedAmount++
					case 1:
						ns.FixedCost++
					case 2:
						ns.StartEpoch++
					default:
						ns.EndEpoch = iotago.EpochIndex(s.atLeast(s.M.Epoch(s.past)+s.E.Unbonding, "accn.enend"))
					}
					removing = s.Rare(3, "accn.en claim")
				}
			} else {
				removing = true
			}
		default:
			removing = true
			if nb != nil {
				ns = s.newStake("accn.stake")
				removing = string(EncFeat(ns)) != string(EncFeat(st))
			}
		}
	}
	claim(removing)
	if ns != nil {
		nfs = append(nfs, ns)
	}
	SetParts(next, []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: s.notSelf(s.anyAddr("accn.a"), i)}}, nfs, s.immDev(imm, "account"))
	s.setAmount(next, "accn")
	s.out(next)
	if b != nil || nb != nil {
		s.issuerAccount(i, next)
	}
	if s.Rare(map[bool]int{true: 1, false: 4}[s.Focus == "C17"], "accn.foundries") {
		s.foundries(i, cur, next)
	}
	if s.dev("foundry counter", "C21", "C17") {
		next.FoundryCounter += uint32([]int{-1, 1}[s.Int(0, 1, "accn.dfc")])
	}
}

// issuerAccount notes an account whose mana is locked, possibly with an output that locks mana to it.
func (s *Scn) issuerAccount(i int, next *iotago.AccountOutput) {
	x := issuerAcc{in: i, next: next}
	if s.Rare(3, "iss.locked") {
		a := iotago.AccountAddress(next.AccountID)
		slot := s.past + s.E.MaxCA + 1
		if s.dev("lock too short", "C22") {
			slot -= uint32(s.Int(1, 3, "iss.short"))
		} else {
			slot += uint32(s.Int(0, 3, "iss.long"))
		}
		x.locked = &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: &a}, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(slot)}}}
		if s.dev("lock with wrapped address", "C22") {
			x.locked.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: flipWrap(&a)}
		}
		if s.Rare(4, "iss.expires") {
			x.locked.UnlockConditions = append(x.locked.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: keys[1].Addr, Slot: iotago.SlotIndex(slot + 100)})
		}
		s.setAmount(x.locked, "iss.lock")
		s.out(x.locked)
	}
	s.issuers = append(s.issuers, x)
}

// foundries adds transitions of foundries of an account.
func (s *Scn) foundries(i int, cur, next *iotago.AccountOutput) {
	acc := iotago.AccountAddress(next.AccountID)
	k, _ := InChainKey(s.ins[i])
	copy(acc[:], k[1:])
	mk := func(sn uint32) *iotago.FoundryOutput {
		a := acc
		return &iotago.FoundryOutput{SerialNumber: sn, UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &a}}}
	}
	// existing ones
	for sn := uint32(1); sn <= cur.FoundryCounter; sn++ {
		if !s.Rare(2, "fou.existing") {
			continue
		}
		f := mk(sn)
		id := RefFoundryID(f)
		maxS := s.amount256("fou.max")
		circ := s.upTo(maxS, "fou.circ")
		melted := big.NewInt(int64(s.Int(0, 3, "fou.melted")))
		if s.Rare(4, "fou.meltedbig") {
			melted = new(big.Int).Rsh(s.U256("fou.meltedb"), 3)
		}
		sch := &iotago.SimpleTokenScheme{MintedTokens: new(big.Int).Add(circ, melted), MeltedTokens: melted, MaximumSupply: maxS}
		f.TokenScheme = sch
		imm := s.immMeta("fou")
		SetParts(f, []iotago.UnlockCondition{f.UnlockConditions[0]}, s.someMeta(nil, "fou"), imm)
		destroy := s.Rare(4, "fou.destroy")
		// tokens on inputs
		in := s.upTo(circ, "fou.in")
		if destroy && !s.dev("foundry destroyed with tokens around", "C17") {
			in = new(big.Int).Set(circ)
		}
		onF := new(big.Int)
		if in.Sign() > 0 && s.Rare(3, "fou.self") {
			onF = s.upTo(in, "fou.selfx")
			if onF.Sign() > 0 {
				f.Features = append(f.Features, &iotago.NativeTokenFeature{ID: id, Amount: onF})
			}
		}
		s.setAmount(f, "fou")
		s.in(f, "fou")
		for left := new(big.Int).Sub(in, onF); left.Sign() > 0; {
			x := new(big.Int).Set(left)
			if s.Rare(3, "fou.insplit") && len(s.ins) < 20 {
				x = new(big.Int).Add(new(big.Int).Rsh(left, 1), big.NewInt(1))
				if x.Cmp(left) > 0 {
					x = new(big.Int).Set(left)
				}
			}
			left.Sub(left, x)
			o := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: s.ownerAddr("fou.holder")}}, Features: iotago.BasicOutputFeatures{&iotago.NativeTokenFeature{ID: id, Amount: x}}}
			s.setAmount(o, "fou.holder")
			s.in(o, "fou.holder")
		}
		if destroy {
			s.part("foundry destroyed")
			s.allow(4, "C17")
			if s.dev("tokens survive the foundry", "C17") {
				s.sendTokens(id, big.NewInt(1))
			}
			continue
		}
		n := mk(sn)
		ns := &iotago.SimpleTokenScheme{MintedTokens: new(big.Int).Set(sch.MintedTokens), MeltedTokens: new(big.Int).Set(sch.MeltedTokens), MaximumSupply: new(big.Int).Set(maxS)}
		out := new(big.Int).Set(in)
		switch s.Int(0, 2, "fou.what") {
		case 0:
			s.part("foundry mints")
			room := new(big.Int).Sub(maxS, circ)
			d := s.upTo(room, "fou.mint")
			// keep the sum within 256 bits
			if new(big.Int).Add(ns.MintedTokens, d).BitLen() <= 256 {
				ns.MintedTokens.Add(ns.MintedTokens, d)
				out.Add(out, d)
			}
		case 1:
			s.part("foundry melts")
			d := s.upTo(in, "fou.melt")
			ns.MeltedTokens.Add(ns.MeltedTokens, d)
			out.Sub(out, d)
		default:
			s.part("foundry rests")
		}
		one := big.NewInt(1)
		if s.dev("scheme", "C17") {
			switch s.Int(0, 5, "fou.dev") {
			case 0:
				ns.MintedTokens.Add(ns.MintedTokens, one)
			case 1:
				ns.MeltedTokens.Add(ns.MeltedTokens, one)
			case 2:
				ns.MintedTokens.Add(ns.MintedTokens, one)
				ns.MeltedTokens.Add(ns.MeltedTokens, one)
			case 3:
				ns.MaximumSupply.Add(ns.MaximumSupply, one)
			case 4:
				if ns.MintedTokens.Sign() > 0 {
					ns.MintedTokens.Sub(ns.MintedTokens, one)
				}
			default:
				if ns.MeltedTokens.Sign() > 0 {
					ns.MeltedTokens.Sub(ns.MeltedTokens, one)
				}
			}
		}
		if s.dev("tokens on outputs", "C17") {
			out.Add(out, big.NewInt(int64([]int{-1, 1}[s.Int(0, 1, "fou.dout")])))
		}
		if s.dev("tokens burned beside the foundry", "C17") && out.Sign() > 0 {
			out.Sub(out, one)
			s.caps |= 1
		}
		n.TokenScheme = ns
		SetParts(n, []iotago.UnlockCondition{n.UnlockConditions[0]}, s.someMeta(nil, "foun"), s.immDev(imm, "foundry"))
		if out.Sign() > 0 && s.Rare(3, "foun.self") {
			n.Features = append(n.Features, &iotago.NativeTokenFeature{ID: id, Amount: new(big.Int).Set(out)})
			out.SetInt64(0)
		}
		s.setAmount(n, "foun")
		s.out(n)
		s.sendTokens(id, out)
	}
	// new ones
	nNew := s.Int(0, 3, "fou.new")
	var made []int
	for j := 1; j <= nNew; j++ {
		s.part("foundry created")
		f := mk(cur.FoundryCounter + uint32(j))
		if s.dev("foundry serial", "C17") {
			f.SerialNumber += uint32([]int{-1, 1, -2}[s.Int(0, 2, "fou.dsn")])
		}
		id := RefFoundryID(f)
		maxS := s.amount256("fou.nmax")
		minted := s.upTo(maxS, "fou.nmint")
		f.TokenScheme = &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: new(big.Int), MaximumSupply: maxS}
		out := new(big.Int).Set(minted)
		if s.dev("new foundry melted", "C17") {
			f.TokenScheme.(*iotago.SimpleTokenScheme).MeltedTokens = s.upTo(minted, "fou.nmelt")
		}
		if s.dev("new foundry tokens", "C17") {
			out.Add(out, big.NewInt(int64([]int{-1, 1}[s.Int(0, 1, "fou.ndout")])))
		}
		SetParts(f, []iotago.UnlockCondition{f.UnlockConditions[0]}, s.someMeta(nil, "foun"), s.immMeta("foun"))
		s.setAmount(f, "foun")
		made = append(made, s.out(f))
		s.sendTokens(id, out)
	}
	next.FoundryCounter += uint32(nNew)
	if len(made) > 1 && s.dev("foundries unordered", "C17") {
		a, b := made[0], made[len(made)-1]
		s.outs[a], s.outs[b] = s.outs[b], s.outs[a]
	}
	if s.dev("foundry account left out", "C17") {
		for j, o := range s.outs {
			if o == iotago.Output(next) {
				s.outs = append(s.outs[:j:j], s.outs[j+1:]...)
				break
			}
		}
		s.caps |= 4
	}
}

func (s *Scn) immMeta(l string) (r []iotago.Feature) {
	if s.Rare(3, l+".imm") {
		r = append(r, s.MetaFeat(l+".immf"))
	}
	return
}

func (s *Scn) upTo(m *big.Int, l string) *big.Int {
	switch s.Int(0, 3, l+".k") {
	case 0:
		return new(big.Int).Set(m)
	case 1:
		return new(big.Int)
	}
	x := s.U256(l)
	return x.Mod(x, new(big.Int).Add(m, big.NewInt(1)))
}

func (s *Scn) implicit() {
	s.part("implicit account")
	n := 1
	if s.dev("two implicit accounts", "C24") {
		n = 2
	}
	for j := 0; j < n; j++ {
		kn := s.Int(0, directKeys-1, "imp.key")
		o := &iotago.BasicOutput{Mana: s.stored("imp.mana"), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keys[kn].Imp}}}
		if s.Rare(5, "imp.nt") {
			s.foreignToken(o)
		}
		s.setAmount(o, "imp")
		i := s.in(o, "imp")
		s.own = append(s.own, keys[kn].Imp)
		k, _ := InChainKey(s.ins[i])
		s.credit(k)
		if s.dev("implicit account destroyed", "C24") {
			continue
		}
		next := &iotago.AccountOutput{AccountID: s.nextID(i)}
		if s.dev("implicit identifier zero", "C24") {
			next.AccountID = iotago.AccountID{}
		}
		fs := s.someMeta(nil, "impn")
		if !s.dev("no block issuer feature", "C24") {
			fs = append(fs, s.bif(s.atLeast(s.past, "expiry", "C24", "C22"), "imp.bif"))
			if s.Rare(3, "imp.stake") {
				fs = append(fs, s.newStake("imp.stakef"))
			}
		}
		SetParts(next, []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: s.notSelf(s.anyAddr("impn.a"), i)}}, fs, s.imm(true, "impn", true))
		s.setAmount(next, "impn")
		if s.dev("implicit foundry counter", "C24") {
			next.FoundryCounter = uint32(s.Int(1, 2, "imp.fc"))
			if s.Bool("imp.foundry") {
				a := iotago.AccountAddress(next.AccountID)
				f := &iotago.FoundryOutput{SerialNumber: 1, TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: new(big.Int), MeltedTokens: new(big.Int), MaximumSupply: big.NewInt(5)}, UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &a}}}
				s.setAmount(f, "imp.f")
				s.out(f)
			}
		}
		s.out(next)
		s.issuerAccount(i, next)
	}
}

// Build runs the elements and finishes the transaction.
func (s *Scn) Build() *VMCase {
	if s.Bool("fund first") {
		s.addFund()
	}
	n := s.Int(1, 4, "elements")
	for i := 0; i < n; i++ {
		el := s.Int(0, 8, "el")
		if i == 0 || s.Bool("focus") {
			switch s.Focus {
			case "C15", "C20":
				el = 0
			case "C16":
				el = []int{0, 0, 0, 6}[s.Int(0, 3, "fel")]
			case "C17":
				el = []int{5, 5, 0}[s.Int(0, 2, "fel")]
			case "C18", "C19":
				el = []int{0, 3, 3, 4, 5}[s.Int(0, 4, "fel")]
			case "C21":
				el = s.Int(3, 5, "fel")
			case "C22":
				el = 5
			case "C23":
				el = 6
			case "C24":
				el = 7
			case "C25":
				if el = s.Int(1, 6, "fel"); el == 6 {
					el = 7
				}
			}
			if s.Focus == "C20" && s.Rare(3, "nft instead") {
				el = 3
			}
		}
		if el == 0 && len(s.issuers) == 0 && s.Focus == "C15" && s.Rare(8, "same key") {
			el = 9
		}
		switch el {
		case 9:
			s.sameKey()
		case 0:
			s.consumeBasic()
		case 1, 2:
			s.payBasic()
		case 3:
			s.nft()
		case 4:
			s.anchor()
		case 5:
			s.account()
		case 6:
			s.delegation()
		case 7:
			if len(s.issuers) == 0 {
				s.implicit()
			} else {
				s.consumeBasic()
			}
		default:
			s.consumeBasic()
		}
	}
	if s.fund < 0 {
		s.addFund()
	}
	s.rem = &iotago.BasicOutput{Amount: 1, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keys[s.Int(0, len(keys)-1, "rem")].Addr}}}
	if s.Bool("rem first") {
		s.outs = append([]iotago.Output{s.rem}, s.outs...)
	} else {
		s.outs = append(s.outs, s.rem)
	}
	s.balance()
	c := &VMCase{E: s.E, M: s.M, In: s.ins, BIC: s.bic, Rewards: s.rewards}
	if !s.NoC {
		x := s.Commit
		c.Commit = &x
	}
	c.Tx = s.tx()
	s.mana(c)
	c.Tx = s.tx() // allotments and capabilities are settled now
	c.Tx.Unlocks = s.Sign(c)
	return c
}

// balance settles the base tokens between fund and remainder.
func (s *Scn) balance() {
	in, out := uint64(0), uint64(0)
	for i, x := range s.ins {
		if i != s.fund {
			in += AmountOf(x.Out)
		}
	}
	s.rem.Amount = 0
	for _, o := range s.outs {
		out += AmountOf(o)
	}
	f := s.ins[s.fund].Out.(*iotago.BasicOutput)
	md := max(1, RefMinDeposit(s.E.Spec, f).Uint64())
	mr := max(1, RefMinDeposit(s.E.Spec, s.rem).Uint64())
	f.Amount = iotago.BaseToken(md + uint64(s.Int(0, 1<<33, "fund.x")))
	for in+uint64(f.Amount) < out+mr {
		f.Amount = iotago.BaseToken(out + mr - in)
	}
	s.rem.Amount = iotago.BaseToken(in + uint64(f.Amount) - out)
	if s.dev("base tokens", "C15") {
		s.rem.Amount += iotago.BaseToken([]uint64{1, ^uint64(0)}[s.Int(0, 1, "bt")])
	}
}

// SetMana sets the stored mana of an output that can have some.
func SetMana(o iotago.Output, m uint64) bool {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		o.Mana = iotago.Mana(m)
	case *iotago.AccountOutput:
		o.Mana = iotago.Mana(m)
	case *iotago.AnchorOutput:
		o.Mana = iotago.Mana(m)
	case *iotago.NFTOutput:
		o.Mana = iotago.Mana(m)
	default:
		return false
	}
	return true
}

// mana settles the mana.
func (s *Scn) mana(c *VMCase) {
	for _, in := range s.ins {
		if slotOf(in.ID) > s.Created {
			return // undefined anyway
		}
	}
	total := c.ManaIn()
	if s.dev("mana sum at the limit", "C16") {
		s.sumAtLimit(c, total)
		total = c.ManaIn()
		if total.BitLen() > 64 && s.Bool("nothing out") { // as if the sum had wrapped around
			if s.Bool("limit.burn") {
				s.caps |= 2
			}
			SetMana(s.rem, new(big.Int).And(total, bigU(^uint64(0))).Uint64())
			return
		}
	}
	left := new(big.Int).Set(total)
	small := func(x *big.Int) uint64 {
		if x.Sign() <= 0 {
			return 0
		}
		if x.BitLen() > 64 {
			return ^uint64(0)
		}
		return x.Uint64()
	}
	put := func(o iotago.Output, v uint64) {
		if SetMana(o, v) {
			left.Sub(left, bigU(v))
		}
	}
	allot := func(id [32]byte, v uint64) {
		if v == 0 || s.allot[id]+v < v {
			return
		}
		s.allot[id] += v
		left.Sub(left, bigU(v))
	}
	kept := map[iotago.Output]bool{s.rem: true}
	for _, x := range s.issuers {
		kept[x.next] = true
		own := new(big.Int).Add(c.storedIn(s.ins[x.in]), c.potentialIn(s.ins[x.in]))
		v := small(own)
		if v > 0 && s.dev("mana moved off", "C22", "C24") {
			v -= uint64(s.Int(1, int(min(v, 1000)), "off"))
		}
		if x.locked != nil {
			kept[x.locked] = true
			y := s.U64Max(v, "iss.lockm")
			put(x.locked, y)
			v -= y
		}
		if s.Rare(3, "iss.allot") {
			y := s.U64Max(v, "iss.allotm")
			allot(x.next.AccountID, y)
			v -= y
		}
		put(x.next, v)
	}
	for _, o := range s.outs {
		if kept[o] || !s.Rare(3, "outmana") {
			continue
		}
		put(o, s.U64Max(small(left), "outmana.v")/2)
	}
	for i, n := 0, s.Int(0, 2, "allots"); i < n && left.Sign() > 0; i++ {
		id := s.B32("allot.id")
		if len(s.issuers) > 0 && s.Rare(4, "allot.issuer") {
			id = s.issuers[0].next.AccountID
		}
		allot(id, s.U64Max(small(left), "allot.v")/2)
	}
	rest := left
	if left.Sign() > 0 && s.Rare(4, "burn") {
		s.part("mana burned")
		s.allow(1, "C16")
		rest = bigU(s.U64Max(small(left), "burn.keep"))
		rest.Sub(rest, big.NewInt(1))
		if rest.Sign() < 0 {
			rest.SetInt64(0)
		}
	} else if s.Rare(4, "burncap") {
		s.caps |= 2
	}
	v := small(rest)
	if s.dev("mana created", "C16") {
		v += 1 + uint64(s.Int(0, 1, "mc"))*uint64(s.Int(0, 1<<40, "mcx"))
	} else if v > 0 && s.dev("mana lost", "C16") {
		v--
	}
	SetMana(s.rem, v)
	if bits := s.E.MaxMana(); c.ManaOut().Cmp(bits) > 0 && bits.BitLen() < 60 {
		s.part("above the mana cap")
	}
}

// sumAtLimit changes a reward or the stored mana of an input so that the sum comes close to 2^64.
func (s *Scn) sumAtLimit(c *VMCase, total *big.Int) {
	target := new(big.Int).Add(bigU(^uint64(0)), big.NewInt(int64(s.Int(-1, 2, "limit.d"))))
	target.Sub(target, total)
	for _, i := range sortedInts(s.rewards) {
		if x := new(big.Int).Add(target, bigU(s.rewards[i])); x.Sign() >= 0 && x.BitLen() <= 64 && !s.Rare(4, "limit.other") {
			s.rewards[i] = x.Uint64()
			s.part("reward up to the limit")
			return
		}
	}
	for _, in := range s.ins {
		if slotOf(in.ID) != s.Created || s.fund >= 0 && in == s.ins[s.fund] && s.Bool("limit.fund") {
			continue
		}
		if x := new(big.Int).Add(target, bigU(ManaStored(in.Out))); x.Sign() >= 0 && x.BitLen() <= 64 && SetMana(in.Out, x.Uint64()) {
			s.part("stored mana up to the limit")
			return
		}
	}
}

func sortedInts(m map[int]uint64) (r []int) {
	for i := range m {
		r = append(r, i)
	}
	sort.Ints(r)
	return
}

// tx assembles the transaction without unlocks.
func (s *Scn) tx() *iotago.SignedTransaction {
	api := s.E.API()
	es := &iotago.TransactionEssence{NetworkID: RefNetworkID(s.E.Name), CreationSlot: iotago.SlotIndex(s.Created), Capabilities: iotago.TransactionCapabilitiesBitMask{}}
	if s.caps != 0 {
		es.Capabilities = iotago.TransactionCapabilitiesBitMask{s.caps}
	}
	for _, in := range s.ins {
		es.Inputs = append(es.Inputs, UTXOInput(in.ID))
	}
	if !s.NoC {
		var id iotago.CommitmentID
		id[0] = 1
		for i := 0; i < 4; i++ {
			id[32+i] = byte(s.Commit >> (8 * i))
		}
		es.ContextInputs = append(es.ContextInputs, &iotago.CommitmentInput{CommitmentID: id})
		var ids [][32]byte
		for k := range s.bic {
			ids = append(ids, k)
		}
		sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
		for _, b := range ids {
			es.ContextInputs = append(es.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: b})
		}
		for i := range s.ins {
			if _, ok := s.rewards[i]; ok {
				es.ContextInputs = append(es.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
			}
		}
	}
	var al [][32]byte
	for k := range s.allot {
		al = append(al, k)
	}
	sort.Slice(al, func(i, j int) bool { return bytes.Compare(al[i][:], al[j][:]) < 0 })
	for _, b := range al {
		es.Allotments = append(es.Allotments, &iotago.Allotment{AccountID: b, Mana: iotago.Mana(s.allot[b])})
	}
	outs := make(iotago.TxEssenceOutputs, 0, len(s.outs))
	for _, o := range s.outs {
		outs = append(outs, o)
	}
	return &iotago.SignedTransaction{API: api, Transaction: &iotago.Transaction{API: api, TransactionEssence: es, Outputs: outs}}
}

// ---- signing

type signer struct {
	s       *Scn
	msg     [32]byte
	sigAt   map[[32]byte]int
	chainAt map[string]int
	multiAt map[string]int
}

func keyOf(h [32]byte) *Key {
	for _, k := range keys {
		if k.Hash == h {
			return k
		}
	}
	return nil
}

// SignWith signs a message with a pooled key.
func SignWith(k *Key, msg [32]byte) *iotago.Ed25519Signature {
	r := &iotago.Ed25519Signature{}
	copy(r.PublicKey[:], k.Priv.Public().(ed25519.PublicKey))
	copy(r.Signature[:], ed25519.Sign(k.Priv, msg[:]))
	return r
}

// can tells whether an unlock for the address is at hand.
func (g *signer) can(a iotago.Address) bool {
	if h, ok := keyHash(a); ok {
		return keyOf(h) != nil
	}
	_, ok := g.chainAt[RefAddrID(a)]
	return ok
}

func (g *signer) unlock(a iotago.Address, i int, member bool) iotago.Unlock {
	if h, ok := keyHash(a); ok {
		if j, ok := g.sigAt[h]; ok {
			return &iotago.ReferenceUnlock{Reference: uint16(j)}
		}
		k := keyOf(h)
		if k == nil {
			k = keys[i%len(keys)]
		}
		if !member {
			g.sigAt[h] = i
		}
		return &iotago.SignatureUnlock{Signature: SignWith(k, g.msg)}
	}
	if m, ok := a.(*iotago.MultiAddress); ok {
		// a second multi unlock (with other members, say) is one unlock too many
		if j, ok := g.multiAt[RefAddrID(a)]; ok && !g.s.dev("second multi unlock", "C19") {
			return &iotago.ReferenceUnlock{Reference: uint16(j)}
		}
		u := &iotago.MultiUnlock{}
		w := 0
		perm := rapid.Permutation(idx(len(m.Addresses))).Draw(g.s.T, "multi order")
		use := map[int]bool{}
		for _, j := range perm {
			x := m.Addresses[j]
			if !g.can(x.Address) || w >= int(m.Threshold) && !g.s.Rare(4, "multi extra") {
				continue
			}
			use[j] = true
			w += int(x.Weight)
		}
		if g.s.dev("multi member left out", "C19") {
			for _, j := range perm {
				if use[j] {
					use[j] = false
					break
				}
			}
		}
		for j, x := range m.Addresses {
			if use[j] {
				u.Unlocks = append(u.Unlocks, g.unlock(x.Address, i, true))
			} else {
				u.Unlocks = append(u.Unlocks, &iotago.EmptyUnlock{})
			}
		}
		g.multiAt[RefAddrID(a)] = i
		return u
	}
	j, ok := g.chainAt[RefAddrID(a)]
	if !ok {
		j = max(0, i-1)
		if i == 0 {
			return &iotago.SignatureUnlock{Signature: SignWith(keys[len(keys)-1], g.msg)}
		}
	}
	switch a.(type) {
	case *iotago.AccountAddress:
		return &iotago.AccountUnlock{Reference: uint16(j)}
	case *iotago.AnchorAddress:
		return &iotago.AnchorUnlock{Reference: uint16(j)}
	default:
		return &iotago.NFTUnlock{Reference: uint16(j)}
	}
}

func idx(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

// Sign produces the unlocks of a case.
func (s *Scn) Sign(c *VMCase) (us iotago.Unlocks) {
	g := &signer{s: s, msg: RefSigningMsg(c.Tx.Transaction), sigAt: map[[32]byte]int{}, chainAt: map[string]int{}, multiAt: map[string]int{}}
	out := OutChains(c.Tx.Transaction)
	for i, in := range c.In {
		own, v := c.owner(i, out)
		if v != nil {
			own = condsOf(in.Out).addr
			if own == nil {
				own = condsOf(in.Out).stateCtl
			}
		}
		if ex := condsOf(in.Out).ex; ex != nil && s.dev("the other party of an expiration", "C20") {
			if own == ex.ReturnAddress {
				own = condsOf(in.Out).addr
			} else {
				own = ex.ReturnAddress
			}
		}
		us = append(us, g.unlock(resolve(own), i, false))
		tmp := &UnlockState{addrs: map[string]*unlockedAt{}}
		tmp.chain(c, i, in, out)
		for k := range tmp.addrs {
			g.chainAt[k] = i
		}
		for _, p := range s.pretended {
			if _, ok := g.chainAt[p.id]; p.in == i && !ok {
				g.chainAt[p.id] = i
			}
		}
	}
	return
}
