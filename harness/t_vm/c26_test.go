package t_vm

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// given renders everything execution was given.
func given(tx *iotago.SignedTransaction, res vm.ResolvedInputs) string {
	var ids []string
	for id, o := range res.InputSet {
		ids = append(ids, fmt.Sprintf("%x %T %x", id, o, kit.EncOutput(o)))
	}
	sort.Strings(ids)
	c := "none"
	if res.CommitmentInput != nil {
		c = fmt.Sprintf("%+v", *res.CommitmentInput)
	}
	return fmt.Sprintf("%x\n%s\n%v\n%v\n%s", kit.EncSignedTx(tx), strings.Join(ids, "\n"), res.BlockIssuanceCreditInputSet, res.RewardsInputSet, c)
}

func unlocked(u vm.UnlockedAddresses) string {
	var r []string
	for k, v := range u {
		var refs []string
		for i := range v.ReferencedByInputIndex {
			refs = append(refs, fmt.Sprint(i))
		}
		sort.Strings(refs)
		r = append(r, fmt.Sprintf("%x at %d by %v", k, v.UnlockedAtInputIndex, refs))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// outcome is the verdict with what the executor made.
func outcome(r kit.VMRun) string {
	if r.Panic != nil {
		return fmt.Sprintf("panic %v", r.Panic)
	}
	if r.UnlockErr != nil {
		return "not unlocked"
	}
	if r.ExecErr != nil {
		return "rejected"
	}
	s := "accepted"
	for _, o := range r.Outputs {
		s += fmt.Sprintf(" %x", kit.EncOutput(o))
	}
	return s + "\n" + unlocked(r.Unlocked)
}

func TestC26(t *testing.T) {
	kit.Check(t, 700, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, []string{"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"}[rapid.IntRange(0, 10).Draw(rt, "focus")])
		v := s.Build()
		if len(kit.SignedTxErrs(v.E.Spec, v.Tx)) > 0 {
			c.Label("syntactically invalid")
			return
		}
		res := v.Resolved()
		before := given(v.Tx, res)
		same := func(what string) {
			if a := given(v.Tx, res); a != before {
				kit.Fail(rt, "%s changed the transaction or its context from\n%s\nto\n%s: %s", what, before, a, v)
			}
		}
		first := outcome(v.ExecuteWith(res))
		c.Label(strings.SplitN(first, " ", 2)[0])
		same("execution")
		expect := func(what, got string) {
			if got != first {
				kit.Fail(rt, "%s gives %q instead of %q: %s", what, got, first, v)
			}
		}
		for i := 0; i < 3; i++ {
			expect("repeated execution", outcome(v.ExecuteWith(res)))
		}
		expect("execution in a rebuilt context", outcome(v.ExecuteWith(v.Resolved())))
		same("repeated execution")
		// one machine for all, from several goroutines
		m := nova.NewVirtualMachine()
		got := make([]string, 4)
		var wg sync.WaitGroup
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var r kit.VMRun
				r.Panic = kit.Panics(func() {
					if r.Unlocked, r.UnlockErr = m.ValidateUnlocks(v.Tx, res); r.UnlockErr == nil {
						r.Outputs, r.ExecErr = m.Execute(v.Tx.Transaction, res, r.Unlocked)
					}
				})
				got[i] = outcome(r)
			}()
		}
		wg.Wait()
		for _, g := range got {
			expect("concurrent execution", g)
		}
		same("concurrent execution")
		// the unlocked addresses are not altered by execution, and executing with the same ones again agrees
		if u, err := m.ValidateUnlocks(v.Tx, res); err == nil {
			a := unlocked(u)
			_, e1 := m.Execute(v.Tx.Transaction, res, u)
			b := unlocked(u)
			_, e2 := m.Execute(v.Tx.Transaction, res, u)
			if a != b || (e1 == nil) != (e2 == nil) {
				kit.Fail(rt, "executing altered the unlocked addresses from\n%s\nto\n%s (%v, %v): %s", a, b, e1, e2, v)
			}
		}
		// clones and decoded copies
		w := *v
		w.Tx = v.Tx.Clone().(*iotago.SignedTransaction)
		expect("execution of a clone", outcome(w.ExecuteWith(w.Resolved())))
		api := v.E.API()
		raw := kit.EncSignedTx(v.Tx)
		d := new(iotago.SignedTransaction)
		if n, err := api.Decode(raw, d); err != nil || n != len(raw) {
			kit.Fail(rt, "decoding the transaction: %d of %d bytes, %v: %s", n, len(raw), err, v)
		}
		w.Tx = d
		w.In = append([]kit.VMIn{}, v.In...)
		for i := range w.In {
			w.In[i].Out = w.In[i].Out.Clone()
		}
		expect("execution of the decoded transaction", outcome(w.ExecuteWith(w.Resolved())))
		same("execution of copies")
		c.NonTrivial(raw, fmt.Sprint(v.BIC, v.Rewards))
		c.Sample("%v deviations %v: %.20s", s.Parts, s.Devs, first)
	})
}
