package kit

import (
	"encoding/hex"
	iotago "github.com/iotaledger/iota.go/v4"

	"pgregory.net/rapid"
)

// Hex prints bytes.
func Hex(b []byte) string { return hex.EncodeToString(b) }

// Fail reports a property violation.
func Fail(t *rapid.T, format string, args ...any) {
	t.Helper()
	t.Fatalf("[violation] "+format, args...)
}

// NoErr fails when an error occurs where the property demands none.
func NoErr(t *rapid.T, err error, format string, args ...any) {
	t.Helper()
	if err != nil {
		t.Fatalf("[violation] "+format+": %v", append(args, err)...)
	}
}

// Harness reports a problem of the harness itself.
func Harness(t *rapid.T, format string, args ...any) {
	t.Helper()
	t.Fatalf("[harness-error] "+format, args...)
}

// Panics runs f and returns the recovered panic value (nil if none).
func Panics(f func()) (p any) {
	defer func() {
		p = recover()
	}()
	f()
	return nil
}

// AmountOf and ManaStored read an output's fields directly.
func AmountOf(o iotago.Output) uint64 {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return uint64(o.Amount)
	case *iotago.AccountOutput:
		return uint64(o.Amount)
	case *iotago.AnchorOutput:
		return uint64(o.Amount)
	case *iotago.FoundryOutput:
		return uint64(o.Amount)
	case *iotago.NFTOutput:
		return uint64(o.Amount)
	case *iotago.DelegationOutput:
		return uint64(o.Amount)
	}
	panic("[harness-error] AmountOf")
}

func ManaStored(o iotago.Output) uint64 {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		return uint64(o.Mana)
	case *iotago.AccountOutput:
		return uint64(o.Mana)
	case *iotago.AnchorOutput:
		return uint64(o.Mana)
	case *iotago.NFTOutput:
		return uint64(o.Mana)
	}
	return 0
}
