package t_vm

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/iotaledger/hive.go/ierrors"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

const unknownReason = 255

func reasonOf(err error) byte {
	for _, r := range reasons {
		if r.err == err {
			return r.code
		}
	}
	return 0
}

type listErr []error // cannot be compared

func (l listErr) Error() string { return "list" }

type listOfErr []error // wraps, cannot be compared

func (l listOfErr) Error() string   { return "wrapping list" }
func (l listOfErr) Unwrap() []error { return l }

type holdErr struct{ what any } // comparable type whose values may not be

func (holdErr) Error() string { return "holder" }

type ptrErr struct{ inner error }

func (p *ptrErr) Error() string { return "pointer" }
func (p *ptrErr) Unwrap() error { return p.inner }

// errTree draws an error together with its expected reason: parts joined later are more specific, and what is wrapped is more specific than its wrapper.
func errTree(g *kit.G, depth int, size *int) (error, byte) {
	*size++
	if depth == 0 || g.Int(0, 3, "leaf") == 0 {
		switch g.Int(0, 9, "kind") {
		case 0:
			return []error{io.EOF, context.Canceled, errors.New(iotago.ErrAccountLocked.Error()), iotago.ErrRefUTXOIndexInvalid, iotago.ErrNestedMultiUnlock, iotago.ErrInvalidFeatureTransition}[g.Int(0, 5, "other")], 0
		case 1:
			return []error{listErr{}, listErr{iotago.ErrAccountLocked}, holdErr{}, holdErr{[]int{1}}, holdErr{iotago.ErrAccountLocked}, listErr(nil), &ptrErr{}, listOfErr{nil}, listOfErr{}}[g.Int(0, 8, "odd")], 0
		default:
			r := reasons[g.Int(0, len(reasons)-1, "sentinel")]
			return r.err, r.code
		}
	}
	wrap := g.Int(0, 8, "wrap")
	if wrap <= 4 {
		e, r := errTree(g, depth-1, size)
		switch wrap {
		case 0:
			return ierrors.Wrap(e, "w"), r
		case 1:
			return ierrors.Wrapf(e, "w %d", 1), r
		case 2:
			return ierrors.WithMessage(e, "m"), r
		case 3:
			return fmt.Errorf("a %w b", e), r
		default:
			return &ptrErr{e}, r
		}
	}
	n := g.Int(1, 3, "parts")
	var es []error
	var r byte
	for i := 0; i < n; i++ {
		e, x := errTree(g, depth-1, size)
		es = append(es, e)
		if x != 0 {
			r = x
		}
	}
	switch wrap {
	case 5:
		return ierrors.Join(es...), r
	case 6:
		return ierrors.Chain(es...), r
	case 7:
		if len(es) == 2 {
			return fmt.Errorf("%w with %w", es[0], es[1]), r
		}
		return errors.Join(es...), r
	default:
		return listOfErr(es), r
	}
}

// TestC37_Map checks the mapping over error trees.
func TestC37_Map(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		size := 0
		err, want := errTree(g, g.Int(0, 6, "depth"), &size)
		if g.Rare(50, "nil") {
			err, want = nil, 0
		}
		if want == 0 {
			want = unknownReason
			c.Label("unknown")
		}
		var got api.TransactionFailureReason
		if p := kit.Panics(func() { got = api.DetermineTransactionFailureReason(err) }); p != nil {
			kit.Fail(rt, "determining the reason of %v panics: %v", err, p)
		}
		if byte(got) != want {
			kit.Fail(rt, "error %v has reason %d instead of %d", err, got, want)
		}
		if size > 1 {
			c.NonTrivial(fmt.Sprintf("%#v %v %d", err, err, want))
			c.Label(fmt.Sprintf("tree of %d+ errors", size/4*4))
			c.Sample("%v: %d", err, want)
		}
	})
}

// TestC37_Wire checks the wire forms of all reason codes.
func TestC37_Wire(t *testing.T) {
	kit.Check(t, 300, func(rt *rapid.T, c *kit.Case) {
		e := kit.GenEnv(rt)
		g := &kit.G{T: rt, E: e}
		r := api.TransactionFailureReason(g.Int(0, 255, "reason"))
		b, err := r.Bytes()
		kit.NoErr(rt, err, "reason bytes")
		if len(b) != 1 || b[0] != byte(r) {
			kit.Fail(rt, "reason %d has bytes %x", r, b)
		}
		tail := g.Bytes(g.Int(0, 3, "tailn"), "tail")
		d, n, err := api.TransactionFailureReasonFromBytes(append(append([]byte{}, b...), tail...))
		if err != nil || d != r || n != 1 {
			kit.Fail(rt, "reason %d decodes to %d (%d bytes, %v)", r, d, n, err)
		}
		if _, _, err := api.TransactionFailureReasonFromBytes(nil); err == nil {
			kit.Fail(rt, "reason decoded from nothing")
		}
		resp := &api.TransactionMetadataResponse{TransactionID: iotago.TransactionID(g.Bytes(36, "id")), TransactionState: api.TransactionState(g.Int(0, 5, "state")), TransactionFailureReason: r}
		a := e.API()
		raw, err := a.Encode(resp)
		kit.NoErr(rt, err, "encoding the response")
		back := new(api.TransactionMetadataResponse)
		if n, err := a.Decode(raw, back); err != nil || n != len(raw) || back.TransactionFailureReason != r {
			kit.Fail(rt, "response with reason %d decodes to %d (%d bytes of %d, %v)", r, back.TransactionFailureReason, n, len(raw), err)
		}
		j, err := a.JSONEncode(resp)
		kit.NoErr(rt, err, "encoding the response as JSON")
		back = new(api.TransactionMetadataResponse)
		if err := a.JSONDecode(j, back); err != nil || back.TransactionFailureReason != r {
			kit.Fail(rt, "response with reason %d decodes from JSON %s to %d (%v)", r, j, back.TransactionFailureReason, err)
		}
		c.NonTrivial(raw)
	})
}

// mostSpecific walks an error depth first, later parts first, wrapped before wrapper.
func mostSpecific(err error) byte {
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		if in := x.Unwrap(); in != nil {
			if r := mostSpecific(in); r != 0 {
				return r
			}
		}
	case interface{ Unwrap() []error }:
		es := x.Unwrap()
		for i := len(es) - 1; i >= 0; i-- {
			if es[i] != nil {
				if r := mostSpecific(es[i]); r != 0 {
					return r
				}
			}
		}
	}
	return reasonOf(err)
}

// TestC37_Reject checks the reasons of rejected transactions.
func TestC37_Reject(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		focus := []string{"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"}[rapid.IntRange(0, 10).Draw(rt, "focus")]
		s := kit.NewScn(rt, focus)
		v := s.Build()
		if focus == "C18" {
			s.EditUnlocks(v)
		}
		if focus == "C19" {
			s.EditMulti(v)
		}
		if len(kit.SignedTxErrs(v.E.Spec, v.Tx)) > 0 {
			return
		}
		r := v.Execute()
		err := r.Err()
		if err == nil {
			c.Label("accepted")
			return
		}
		vs := v.Run()
		got := byte(api.DetermineTransactionFailureReason(err))
		want := mostSpecific(err)
		if want == 0 {
			want = unknownReason
		}
		if got != want {
			kit.Fail(rt, "error %v has reason %d instead of %d", err, got, want)
		}
		// the reason belongs to a broken rule
		ok, specific := false, false
		for _, x := range vs {
			all := true
			for _, e := range x.Errs {
				y := reasonOf(e)
				ok = ok || y == got && y != 0 || y == 0 && got == unknownReason
				all = all && y != 0
			}
			specific = specific || all
		}
		if !ok {
			kit.Fail(rt, "rejected with %v, reason %d, broken rules %v: %s", err, got, kit.Rules(vs), v)
		}
		if specific && len(vs) == 1 && got == unknownReason {
			kit.Fail(rt, "rejected with %v, generic reason for %v: %s", err, kit.Rules(vs), v)
		}
		c.NonTrivial(kit.EncSignedTx(v.Tx), fmt.Sprint(v.BIC, v.Rewards))
		c.Label(fmt.Sprintf("reason %d", got))
		c.Sample("%v: %d", kit.Rules(vs), got)
	})
}
