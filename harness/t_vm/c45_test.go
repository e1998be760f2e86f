package t_vm

import (
	"fmt"
	"strings"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

var soloRules = []struct {
	part string
	fn   func() vm.ExecFunc
}{
	{"timelocks", vm.ExecFuncTimelocks},
	{"sender", vm.ExecFuncSenderUnlocked},
	{"base tokens", vm.ExecFuncBalancedBaseTokens},
	{"native tokens", vm.ExecFuncBalancedNativeTokens},
	{"mana", vm.ExecFuncBalancedMana},
	{"implicit accounts", vm.ExecFuncAtMostOneImplicitAccountCreationAddress},
}

func ofPart(vs []kit.Viol, part string) (r []kit.Viol) {
	for _, v := range vs {
		if strings.HasPrefix(v.Part, part) {
			r = append(r, v)
		}
	}
	return
}

// C45: every rule of the executor decides by itself, whatever else is wrong with the transaction.
func TestC45(t *testing.T) {
	kit.Check(t, 4500, func(rt *rapid.T, c *kit.Case) {
		focus := []string{"C45", "C45", "C45", "C15", "C16", "C17", "C20", "C21", "C22", "C23", "C24", "C25"}[rapid.IntRange(0, 11).Draw(rt, "focus")]
		s := kit.NewScn(rt, focus)
		v := s.Build()
		if e := kit.SignedTxErrs(v.E.Spec, v.Tx); len(e) > 0 {
			c.Label("syntactically invalid")
			return
		}
		us, viol := v.Unlocks()
		if viol != nil {
			c.Label("unlocks refused")
			return
		}
		vs := v.Exec(us)
		what := fmt.Sprintf("%v (deviations %v): %s", s.Parts, s.Devs, v)
		m := nova.NewVirtualMachine()
		res := v.Resolved()
		unlocked, err := m.ValidateUnlocks(v.Tx, res)
		if err != nil {
			kit.Fail(rt, "unlocks refused with %v: %s", err, what)
		}
		run := func(name string, fns ...vm.ExecFunc) (err error) {
			if p := kit.Panics(func() { _, err = m.Execute(v.Tx.Transaction, v.Resolved(), unlocked, fns...) }); p != nil {
				kit.Fail(rt, "%s panics: %v: %s", name, p, what)
			}
			return
		}
		agree := func(name string, err error, vs []kit.Viol) {
			switch {
			case err == nil && len(vs) > 0:
				kit.Fail(rt, "%s accepts although %s: %s", name, strings.Join(kit.Rules(vs), ", "), what)
			case err != nil && len(vs) == 0:
				kit.Fail(rt, "%s rejects (%v) although it is kept: %s", name, err, what)
			case err != nil && !kit.Explains(err, vs):
				kit.Fail(rt, "%s rejects with %v, broken: %s: %s", name, err, strings.Join(kit.Rules(vs), ", "), what)
			}
		}
		idle := vm.ExecFunc(func(vm.VirtualMachine, *vm.Params) error { return nil })
		ctx := ofPart(vs, "context")
		agree("an executor without rules", run("an executor without rules", idle), ctx)
		if len(ctx) > 0 {
			c.Label("no context")
			return
		}
		parts := map[string]bool{}
		failing := 0
		count := func(name string, vs []kit.Viol) {
			if len(vs) > 0 && !parts[name] {
				parts[name] = true
				failing++
				c.Label("broken by itself: " + name)
			}
		}
		for _, r := range soloRules {
			mine := ofPart(vs, r.part)
			agree(r.part+" by itself", run(r.part, r.fn()), mine)
			count(r.part, mine)
			if len(mine) > 0 {
				agree(r.part+" after a rule that does nothing", run(r.part, idle, r.fn(), idle), mine)
			}
		}
		// a rule that fails is not outvoted by those after it
		if failing > 0 {
			i := rapid.IntRange(0, len(soloRules)-1).Draw(rt, "first")
			for _, r := range soloRules {
				if mine := ofPart(vs, r.part); len(mine) > 0 {
					both := append(ofPart(vs, soloRules[i].part), mine...)
					if err := run("two rules", soloRules[i].fn(), r.fn()); err == nil || !kit.Explains(err, both) {
						kit.Fail(rt, "%s and %s together say %v: %s", soloRules[i].part, r.part, err, what)
					}
				}
			}
		}

		// the totals and the chains the rules work on
		ws, err := nova.NewVMParamsWorkingSet(v.E.API(), v.Tx.Transaction, res)
		if err != nil {
			kit.Fail(rt, "no working set: %v: %s", err, what)
		}
		if got, want := fmt.Sprint(uint64(ws.TotalManaIn)), v.ManaIn().String(); got != want {
			kit.Fail(rt, "mana in is %s, should be %s: %s", got, want, what)
		}
		if got, want := fmt.Sprint(uint64(ws.TotalManaOut)), v.ManaOut().String(); got != want {
			kit.Fail(rt, "mana out is %s, should be %s: %s", got, want, what)
		}
		ws.UnlockedAddrs = unlocked
		params := &vm.Params{API: v.E.API(), WorkingSet: ws}
		nt := vm.RunVMFuncs(m, params, vm.ExecFuncBalancedNativeTokens())
		agree("native tokens before the chains", nt, ofPart(vs, "native tokens"))
		for _, x := range ofPart(vs, "native tokens") {
			if x.Rule == "native token sum above 256 bits" {
				return
			}
		}
		in := map[string]*vm.ChainOutputWithIDs{}
		for id, ch := range ws.InChains {
			i := -1
			for j, x := range v.In {
				if x.ID == ch.OutputID {
					i = j
				}
			}
			k, ok := "", false
			if i >= 0 {
				k, ok = kit.InChainKey(v.In[i])
			}
			if !ok || k[1:] != string(chainBytes(id)) || id != ch.ChainID || in[k] != nil {
				kit.Fail(rt, "consumed chain %v of output %v is not one of the inputs: %s", id, ch.OutputID, what)
			}
			in[k] = ch
		}
		for _, x := range v.In {
			if k, ok := kit.InChainKey(x); ok && in[k] == nil {
				kit.Fail(rt, "the chain of input %v is missing: %s", x.ID, what)
			}
		}
		outs := kit.OutChains(v.Tx.Transaction)
		out := map[string]iotago.ChainOutput{}
		for k, j := range outs {
			for id, o := range ws.OutChains {
				if iotago.Output(o) == iotago.Output(v.Tx.Transaction.Outputs[j]) && string(chainBytes(id)) == k[1:] {
					out[k] = o
				}
			}
			if out[k] == nil {
				kit.Fail(rt, "the chain of output %d is missing: %s", j, what)
			}
		}
		if len(ws.OutChains) != len(outs) {
			kit.Fail(rt, "%d chains created, should be %d: %s", len(ws.OutChains), len(outs), what)
		}
		for _, k := range keysOf(in, out) {
			mine := ofPart(vs, "chain "+k)
			var err error
			kind, next := iotago.ChainTransitionTypeStateChange, out[k]
			name := "transition"
			switch {
			case in[k] == nil:
				kind, name = iotago.ChainTransitionTypeGenesis, "creation"
			case next == nil:
				kind, name = iotago.ChainTransitionTypeDestroy, "destruction"
			}
			name += " of " + k[:1]
			if p := kit.Panics(func() { err = m.ChainSTVF(params, kind, in[k], next) }); p != nil {
				kit.Fail(rt, "%s panics: %v: %s", name, p, what)
			}
			agree(fmt.Sprintf("%s %x by itself", name, k[1:]), err, mine)
			c.Label(name)
			count(name, mine)
		}
		all := run("all rules", vm.ExecFuncBalancedNativeTokens(), vm.ExecFuncChainTransitions(), vm.ExecFuncBalancedMana(), vm.ExecFuncAtMostOneImplicitAccountCreationAddress(), vm.ExecFuncBalancedBaseTokens(), vm.ExecFuncSenderUnlocked(), vm.ExecFuncTimelocks())
		agree("the rules in another order", all, vs)
		chains := run("chains", func(m vm.VirtualMachine, p *vm.Params) error {
			_ = vm.ExecFuncBalancedNativeTokens()(m, p)
			return vm.ExecFuncChainTransitions()(m, p)
		})
		agree("the chains by themselves", chains, ofPart(vs, "chain "))
		switch {
		case failing > 1:
			c.Label("several rules broken")
		case failing == 1:
			c.Label("one rule broken")
		}
		c.NonTrivial(kit.EncSignedTx(v.Tx), fmt.Sprint(v.BIC, v.Rewards))
		c.Sample("%v deviations %v: %v", s.Parts, s.Devs, kit.Rules(vs))
	})
}

func chainBytes(id iotago.ChainID) []byte {
	switch x := id.(type) {
	case iotago.AccountID:
		return x[:]
	case iotago.AnchorID:
		return x[:]
	case iotago.NFTID:
		return x[:]
	case iotago.DelegationID:
		return x[:]
	case iotago.FoundryID:
		return x[:]
	}
	return nil
}

func keysOf(in map[string]*vm.ChainOutputWithIDs, out map[string]iotago.ChainOutput) (r []string) {
	for k := range in {
		r = append(r, k)
	}
	for k := range out {
		if in[k] == nil {
			r = append(r, k)
		}
	}
	r = uniq(r)
	return
}
