package t_vm

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/kit"
)

// judge compares the library with the reference executor on one case; it tells whether the case counted.
func judge(rt *rapid.T, c *kit.Case, v *kit.VMCase, parts, devs []string) (accepted, counted bool) {
	if e := kit.SignedTxErrs(v.E.Spec, v.Tx); len(e) > 0 {
		c.Label("syntactically invalid: " + e[0])
		return
	}
	vs := v.Run()
	r := v.Execute()
	what := fmt.Sprintf("%v (deviations %v): %s", parts, devs, v)
	if r.Panic != nil {
		kit.Fail(rt, "execution panics (%v), reference says %v: %s", r.Panic, kit.Rules(vs), what)
	}
	err := r.Err()
	switch {
	case err == nil && len(vs) > 0:
		kit.Fail(rt, "accepted although %s: %s", strings.Join(kit.Rules(vs), ", "), what)
	case err != nil && len(vs) == 0:
		kit.Fail(rt, "rejected (%v) although every rule holds: %s", err, what)
	case err != nil && !kit.Explains(err, vs):
		kit.Fail(rt, "rejected with %v, broken rules: %s: %s", err, strings.Join(kit.Rules(vs), ", "), what)
	}
	if err == nil {
		c.Label("accepted")
		if len(r.Outputs) != len(v.Tx.Transaction.Outputs) {
			kit.Fail(rt, "%d outputs created of %d: %s", len(r.Outputs), len(v.Tx.Transaction.Outputs), what)
		}
		for i, o := range v.Tx.Transaction.Outputs {
			if string(kit.EncOutput(r.Outputs[i])) != string(kit.EncOutput(o)) {
				kit.Fail(rt, "created output %d differs from the transaction's: %s", i, what)
			}
		}
	} else {
		c.Label("rejected: " + vs[0].Rule)
	}
	for _, p := range uniq(parts) {
		c.Label("with " + p)
	}
	c.NonTrivial(kit.EncSignedTx(v.Tx), fmt.Sprint(v.BIC, v.Rewards))
	c.Sample("%v deviations %v: %v", parts, devs, kit.Rules(vs))
	return err == nil, true
}

func uniq(xs []string) (r []string) {
	m := map[string]bool{}
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return
}

func focused(t *testing.T, focus string, n int) {
	kit.Check(t, n, func(rt *rapid.T, c *kit.Case) {
		s := kit.NewScn(rt, focus)
		v := s.Build()
		judge(rt, c, v, s.Parts, s.Devs)
	})
}

func TestC15(t *testing.T) { focused(t, "C15", 4000) }
func TestC16(t *testing.T) { focused(t, "C16", 4000) }
func TestC17(t *testing.T) { focused(t, "C17", 4000) }
func TestC20(t *testing.T) { focused(t, "C20", 4000) }
func TestC21(t *testing.T) { focused(t, "C21", 4000) }
func TestC22(t *testing.T) { focused(t, "C22", 4000) }
func TestC23(t *testing.T) { focused(t, "C23", 4000) }
func TestC24(t *testing.T) { focused(t, "C24", 4000) }
func TestC25(t *testing.T) { focused(t, "C25", 4000) }
