package kit

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

// ---- mana

// ManaModel evaluates mana generation and decay with big integers.
type ManaModel struct {
	GenesisSlot                uint32
	EpochExp                   uint
	GenRate                    uint64
	GenRateExp, DecExp, SumExp uint
	Sum                        uint64
	Factors                    []uint32
}

// Model builds the model from the derived parameters of an environment.
func (e *Env) Model() *ManaModel {
	mp := e.API().ProtocolParameters().ManaParameters()
	return &ManaModel{GenesisSlot: e.GenesisSlot, EpochExp: uint(e.EpochExp), GenRate: uint64(e.GenRate), GenRateExp: uint(e.GenRateExp), DecExp: uint(e.DecExp), SumExp: uint(e.DecSumExp), Sum: uint64(mp.DecayFactorEpochsSum), Factors: mp.DecayFactors}
}

// Epoch of a slot.
func (m *ManaModel) Epoch(slot uint32) uint32 {
	if slot <= m.GenesisSlot {
		return 0
	}
	return (slot - m.GenesisSlot) >> m.EpochExp
}

func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

// Decay applies the table for n epochs.
func (m *ManaModel) Decay(v *big.Int, n uint32) *big.Int {
	r := new(big.Int).Set(v)
	if len(m.Factors) == 0 {
		return r
	}
	for n > 0 && r.Sign() > 0 {
		k := min(n, uint32(len(m.Factors)))
		n -= k
		r.Mul(r, bigU(uint64(m.Factors[k-1])))
		r.Rsh(r, m.DecExp)
	}
	return r
}

// Gen is the mana generated without decay in n slots.
func (m *ManaModel) Gen(amount uint64, n uint64) *big.Int {
	r := mulB(amount, n)
	r.Mul(r, bigU(m.GenRate))
	return r.Rsh(r, m.GenRateExp)
}

// Generate is the decayed generated mana between two slots (from at or after the genesis slot).
func (m *ManaModel) Generate(amount uint64, from, to uint32) *big.Int {
	e1, e2 := m.Epoch(from), m.Epoch(to)
	if e1 == e2 {
		return m.Gen(amount, uint64(to-from))
	}
	size := uint64(1) << m.EpochExp
	before := size - (uint64(from-m.GenesisSlot) & (size - 1))
	since := uint64(to-m.GenesisSlot) & (size - 1)
	first := m.Decay(m.Gen(amount, before), e2-e1)
	last := m.Gen(amount, since)
	if e2-e1 == 1 {
		return first.Add(first, last)
	}
	c := mulB(amount, m.Sum)
	c.Mul(c, bigU(m.GenRate))
	c.Rsh(c, m.SumExp+m.GenRateExp-m.EpochExp)
	r := new(big.Int).Sub(c, m.Decay(c, e2-e1-1))
	r.Add(r, first)
	r.Add(r, last)
	return r.Sub(r, new(big.Int).Rsh(c, m.DecExp))
}

// PotentialMana of an output.
func (e *Env) PotentialMana(m *ManaModel, o iotago.Output, from, to uint32) *big.Int {
	x := new(big.Int).Sub(bigU(AmountOf(o)), RefMinDeposit(e.Spec, o))
	if x.Sign() <= 0 {
		return new(big.Int)
	}
	return m.Generate(x.Uint64(), from, to)
}

// ---- work score

// RefWork sums the charges of a payload (big, so nothing wraps).
type RefWork struct{ W iotago.WorkScoreParameters }

func (r RefWork) n(c iotago.WorkScore, n int) *big.Int { return mulB(uint64(c), uint64(n)) }

func (r RefWork) Output(o iotago.Output) *big.Int {
	s := r.n(r.W.Output, 1)
	_, fs, ims := Parts(o)
	for _, f := range append(append([]iotago.Feature{}, fs...), ims...) {
		switch f.(type) {
		case *iotago.NativeTokenFeature:
			s.Add(s, r.n(r.W.NativeToken, 1))
		case *iotago.BlockIssuerFeature:
			s.Add(s, r.n(r.W.BlockIssuer, 1))
		case *iotago.StakingFeature:
			s.Add(s, r.n(r.W.Staking, 1))
		}
	}
	if _, ok := o.(*iotago.FoundryOutput); ok {
		s.Add(s, r.n(r.W.NativeToken, 1)) // token scheme
	}
	return s
}

func (r RefWork) Unlock(u iotago.Unlock) *big.Int {
	switch u := u.(type) {
	case *iotago.SignatureUnlock:
		return r.n(r.W.SignatureEd25519, 1)
	case *iotago.MultiUnlock:
		s := new(big.Int)
		for _, v := range u.Unlocks {
			s.Add(s, r.Unlock(v))
		}
		return s
	}
	return new(big.Int)
}

func (r RefWork) Tx(t *iotago.Transaction) *big.Int {
	es := t.TransactionEssence
	s := r.n(r.W.Input, len(es.Inputs))
	s.Add(s, r.n(r.W.ContextInput, len(es.ContextInputs)))
	s.Add(s, r.n(r.W.Allotment, len(es.Allotments)))
	for _, o := range t.Outputs {
		s.Add(s, r.Output(o))
	}
	return s
}

func (r RefWork) Payload(p iotago.Payload) *big.Int {
	s := r.n(r.W.Block, 1)
	switch p := p.(type) {
	case *iotago.TaggedData:
		s.Add(s, r.n(r.W.DataByte, len(EncTagged(p))))
	case *iotago.CandidacyAnnouncement:
		s.Add(s, r.n(r.W.DataByte, 1))
	case *iotago.SignedTransaction:
		s.Add(s, r.n(r.W.DataByte, len(EncSignedTx(p))))
		s.Add(s, r.Tx(p.Transaction))
		for _, u := range p.Unlocks {
			s.Add(s, r.Unlock(u))
		}
	}
	return s
}

func (r RefWork) Block(b *iotago.Block) *big.Int {
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		return r.Payload(body.Payload)
	}
	return new(big.Int)
}
