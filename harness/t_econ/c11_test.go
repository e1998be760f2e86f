package t_econ

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// genWork draws charges; wide ones make sums leave 32 bits.
func genWork(g *kit.G) iotago.WorkScoreParameters {
	if g.Rare(4, "pool") {
		return g.E.WS
	}
	w := func(l string) iotago.WorkScore { return iotago.WorkScore(g.Int(0, 5000, l)) }
	if g.Bool("wide") {
		w = func(l string) iotago.WorkScore {
			switch g.Int(0, 3, l+"?") {
			case 0:
				return iotago.WorkScore(g.U32(l))
			case 1:
				return iotago.WorkScore(g.Int(0, 10, l))
			case 2:
				return iotago.WorkScore(uint32(1) << g.Int(16, 31, l))
			}
			return iotago.WorkScore(g.Int(0, 1<<22, l))
		}
	}
	return iotago.WorkScoreParameters{DataByte: w("w0"), Block: w("w1"), Input: w("w2"), ContextInput: w("w3"), Output: w("w4"), NativeToken: w("w5"), Staking: w("w6"), BlockIssuer: w("w7"), Allotment: w("w8"), SignatureEd25519: w("w9")}
}

func sameWork(rt *rapid.T, got iotago.WorkScore, err error, want *big.Int, what string) {
	fits := want.BitLen() <= 32
	if fits != (err == nil) || fits && uint64(got) != want.Uint64() {
		kit.Fail(rt, "%s: work score %d (%v), specified %d", what, got, err, want)
	}
}

func TestC11(t *testing.T) {
	kit.Check(t, 15000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		b := g.BlockWith(g.Int(0, 4, "bk"))
		// the block under its own API
		want := kit.RefWork{W: g.E.WS}.Block(b)
		got, err := b.WorkScore()
		sameWork(rt, got, err, want, fmt.Sprintf("block %x on %s", kit.EncBlock(b), g.E.Name))
		rmc := g.U64("rmc")
		if g.Bool("edge") && want.Sign() > 0 { // around the largest representable cost
			rmc = new(big.Int).Div(new(big.Int).SetUint64(math.MaxUint64), want).Uint64() + uint64(g.Int(-2, 2, "rmcd"))
		}
		cost := new(big.Int).Mul(want, new(big.Int).SetUint64(rmc))
		mc, err := b.ManaCost(iotago.Mana(rmc))
		if fits := cost.BitLen() <= 64; fits != (err == nil) || fits && uint64(mc) != cost.Uint64() {
			kit.Fail(rt, "mana cost %d (%v) at reference cost %d, specified %d", mc, err, rmc, cost)
		}
		if got > g.E.API().MaxBlockWork() {
			kit.Fail(rt, "work %d above the maximum block work %d", got, g.E.API().MaxBlockWork())
		}
		// its payload under arbitrary charges
		if body, ok := b.Body.(*iotago.BasicBlockBody); ok && body.Payload != nil {
			w := genWork(g)
			r := kit.RefWork{W: w}
			want := r.Payload(body.Payload)
			got, err := body.Payload.WorkScore(&w)
			sameWork(rt, got, err, want, fmt.Sprintf("payload %T under %+v", body.Payload, w))
			got, err = body.WorkScore(&w)
			sameWork(rt, got, err, want, fmt.Sprintf("body with payload %T under %+v", body.Payload, w))
			if want.BitLen() > 32 {
				c.Label("beyond 32 bits")
			}
			if tx, ok := body.Payload.(*iotago.SignedTransaction); ok {
				got, err := tx.Transaction.WorkScore(&w)
				sameWork(rt, got, err, r.Tx(tx.Transaction), fmt.Sprintf("transaction under %+v", w))
				for _, o := range tx.Transaction.Outputs {
					got, err := o.WorkScore(&w)
					sameWork(rt, got, err, r.Output(o), fmt.Sprintf("%T under %+v", o, w))
				}
			}
			c.Label(fmt.Sprintf("%T", body.Payload))
			c.NonTrivial(kit.EncBlock(b), fmt.Sprint(w))
		}
		// the work follows the block when it is altered in place
		if ls := kit.Leaves(b.Body); len(ls) > 0 && g.Rare(3, "alter") {
			l := ls[g.Int(0, len(ls)-1, "leaf")]
			l.Do(g.U64("k"))
			var again *big.Int
			if p := kit.Panics(func() { again = kit.RefWork{W: g.E.WS}.Block(b) }); p == nil {
				got, err := b.WorkScore()
				sameWork(rt, got, err, again, fmt.Sprintf("block on %s after changing %s in place", g.E.Name, l.Path))
				c.Label("altered in place")
			}
		}
		c.Sample("%T on %s: work %d, at %d costs %d", b.Body, g.E.Name, want, rmc, cost)
	})
}

// C11: the arithmetic helpers.
func TestC11_Arithmetic(t *testing.T) {
	kit.Check(t, 20000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		a := iotago.WorkScore(g.U32("a"))
		var add []iotago.WorkScore
		sum := big.NewInt(int64(a))
		for i, n := 0, g.Int(0, 4, "n"); i < n; i++ {
			x := g.U32("x")
			if g.Bool("fill") { // up to the edge
				r := new(big.Int).Sub(big.NewInt(math.MaxUint32), sum)
				if r.Sign() > 0 {
					x = uint32(r.Uint64()) + uint32(g.Int(-1, 1, "d"))
				}
			}
			add = append(add, iotago.WorkScore(x))
			sum.Add(sum, big.NewInt(int64(x)))
		}
		got, err := a.Add(add...)
		sameWork(rt, got, err, sum, fmt.Sprintf("%d + %v", a, add))
		m := g.Int(0, 40000, "m")
		if g.Bool("edge") && a > 0 {
			m = int(math.MaxUint32/uint64(a)) + g.Int(-1, 1, "md")
			if m < 0 || m > math.MaxUint32 {
				m = 0
			}
		}
		got, err = a.Multiply(m)
		sameWork(rt, got, err, new(big.Int).Mul(big.NewInt(int64(a)), big.NewInt(int64(m))), fmt.Sprintf("%d * %d", a, m))
		rmc := g.U64("rmc")
		cost := new(big.Int).Mul(new(big.Int).SetUint64(rmc), big.NewInt(int64(a)))
		mc, err := iotago.ManaCost(iotago.Mana(rmc), a)
		if fits := cost.BitLen() <= 64; fits != (err == nil) || fits && uint64(mc) != cost.Uint64() {
			kit.Fail(rt, "ManaCost(%d,%d) = %d %v, specified %d", rmc, a, mc, err, cost)
		}
		// the largest work of any block
		w := genWork(g)
		mw, err := w.MaxBlockWork()
		ref := new(big.Int)
		for _, p := range []struct {
			w iotago.WorkScore
			n int64
		}{{w.DataByte, iotago.MaxPayloadSize}, {w.Block, 1}, {w.Input, 128}, {w.ContextInput, 128}, {w.Output, 128}, {w.NativeToken, 128}, {w.Staking, 128}, {w.BlockIssuer, 128}, {w.Allotment, 128}, {w.SignatureEd25519, 1280}} {
			ref.Add(ref, new(big.Int).Mul(big.NewInt(int64(p.w)), big.NewInt(p.n)))
		}
		sameWork(rt, mw, err, ref, fmt.Sprintf("maximum block work of %+v", w))
		c.NonTrivial(fmt.Sprint(a, add, m, rmc, w))
		c.Sample("%d + %v = %d; %d*%d", a, add, sum, a, m)
	})
}
