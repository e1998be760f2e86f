package t_syn

import (
	"errors"
	"testing"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// verdicts asks the library in both directions: validating encoding and validating decoding of the reference encoding.
func verdicts(rt *rapid.T, e *kit.Env, obj, fresh any, enc []byte, errs []string, what string) {
	// validating a locally built object that lacks a mandatory part may panic instead of returning an error: counted as not accepted
	// (decoding never gets there, the list rules come first)
	err := errors.New("panic")
	if p := kit.Panics(func() { _, err = kit.Encode(e, obj) }); p != nil && len(errs) == 0 {
		kit.Fail(rt, "%s: validating encoding of a well-formed object panicked: %v", what, p)
	}
	if (err == nil) != (len(errs) == 0) {
		kit.Fail(rt, "%s: validating encoding says %v, the rules broken are %q\n encoding %x", what, err, errs, enc)
	}
	n, err := e.API().Decode(enc, fresh, serix.WithValidation())
	ok := err == nil && n == len(enc)
	if ok != (len(errs) == 0) {
		kit.Fail(rt, "%s: validating decoding says %v (%d of %d bytes), the rules broken are %q\n encoding %x", what, err, n, len(enc), errs, enc)
	}
}

type edit struct {
	name string
	fn   func()
}

func (e *edits) add(name string, fn func()) { *e = append(*e, edit{name, fn}) }

type edits []edit

// pick applies one drawn edit and returns its name.
func (e edits) pick(g *kit.G) string {
	i := g.Int(0, len(e)-1, "edit")
	e[i].fn()
	return e[i].name
}

func minimalTx(g *kit.G, o iotago.Output) *iotago.SignedTransaction {
	api := g.E.API()
	es := &iotago.TransactionEssence{NetworkID: kit.RefNetworkID(g.E.Name), CreationSlot: 100, Capabilities: iotago.TransactionCapabilitiesBitMask{},
		Inputs:        iotago.TxEssenceInputs{kit.UTXOInput(g.OutputID("in"))},
		ContextInputs: iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: g.CommitmentID("cid")}}}
	return &iotago.SignedTransaction{API: api, Transaction: &iotago.Transaction{API: api, TransactionEssence: es, Outputs: iotago.TxEssenceOutputs{o}}, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: g.Sig(0)}}}
}
