package kit

import (
	"fmt"
	"math/big"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

// Resolved builds the context the library executes a case in.
func (c *VMCase) Resolved() vm.ResolvedInputs {
	r := vm.ResolvedInputs{InputSet: vm.InputSet{}, BlockIssuanceCreditInputSet: vm.BlockIssuanceCreditInputSet{}, RewardsInputSet: vm.RewardsInputSet{}}
	for _, in := range c.In {
		r.InputSet[in.ID] = in.Out
	}
	for k, v := range c.BIC {
		r.BlockIssuanceCreditInputSet[k] = iotago.BlockIssuanceCredits(v)
	}
	if c.Commit != nil {
		r.CommitmentInput = &iotago.Commitment{ProtocolVersion: iotago.Version(c.E.Version), Slot: iotago.SlotIndex(*c.Commit)}
	}
	for i, m := range c.Rewards {
		k, _ := InChainKey(c.In[i])
		var b [32]byte
		copy(b[:], k[1:])
		switch k[0] {
		case 'A':
			r.RewardsInputSet[iotago.AccountID(b)] = iotago.Mana(m)
		case 'D':
			r.RewardsInputSet[iotago.DelegationID(b)] = iotago.Mana(m)
		}
	}
	return r
}

// Stage results of the library.
type VMRun struct {
	UnlockErr, ExecErr error
	Unlocked           vm.UnlockedAddresses
	Outputs            []iotago.Output
	Panic              any
}

// Err is the verdict.
func (r VMRun) Err() error {
	if r.UnlockErr != nil {
		return r.UnlockErr
	}
	return r.ExecErr
}

// Execute runs the library.
func (c *VMCase) Execute() VMRun { return c.ExecuteWith(c.Resolved()) }

// ExecuteWith runs the library in a given context.
func (c *VMCase) ExecuteWith(res vm.ResolvedInputs) (r VMRun) {
	r.Panic = Panics(func() {
		m := nova.NewVirtualMachine()
		r.Unlocked, r.UnlockErr = m.ValidateUnlocks(c.Tx, res)
		if r.UnlockErr == nil {
			r.Outputs, r.ExecErr = m.Execute(c.Tx.Transaction, res, r.Unlocked)
		}
	})
	return
}

// String describes a case.
func (c *VMCase) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "network %s", c.E.Name)
	if c.Commit != nil {
		fmt.Fprintf(&b, ", commitment slot %d", *c.Commit)
	}
	for i, in := range c.In {
		fmt.Fprintf(&b, ", input %d created at %d %T %x", i, slotOf(in.ID), in.Out, EncOutput(in.Out))
	}
	for k, v := range c.BIC {
		fmt.Fprintf(&b, ", credit of %x: %d", k, v)
	}
	for k, v := range c.Rewards {
		fmt.Fprintf(&b, ", rewards of input %d: %d", k, v)
	}
	fmt.Fprintf(&b, ", transaction %x", EncSignedTx(c.Tx))
	return b.String()
}

// ManaOf is the mana an input brings in.
func (c *VMCase) ManaOf(in VMIn) *big.Int {
	return c.storedIn(in).Add(c.storedIn(in), c.potentialIn(in))
}

// ManaParts is the stored and the potential mana of an input.
func (c *VMCase) ManaParts(in VMIn) (stored, potential *big.Int) {
	return new(big.Int).Set(c.storedIn(in)), new(big.Int).Set(c.potentialIn(in))
}

// ManaHolder tells whether an output can be given more stored mana.
func ManaHolder(o iotago.Output) (uint64, bool) {
	switch o.(type) {
	case *iotago.BasicOutput, *iotago.AccountOutput, *iotago.AnchorOutput, *iotago.NFTOutput:
		return ManaStored(o), true
	}
	return 0, false
}

// AccountFor draws an account to issue blocks with: one of the transaction's, one with an allotment, or another.
func (g *G) AccountFor(v *VMCase, l string) iotago.AccountID {
	var ids []iotago.AccountID
	for _, in := range v.In {
		if k, ok := InChainKey(in); ok && k[0] == 'A' {
			ids = append(ids, iotago.AccountID([]byte(k[1:])))
		}
	}
	for _, a := range v.Tx.Transaction.Allotments {
		ids = append(ids, a.AccountID)
	}
	ids = append(ids, iotago.AccountID(g.B32(l+".other")))
	return ids[g.Int(0, len(ids)-1, l)]
}
