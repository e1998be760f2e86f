package t_misc

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"testing"

	_ "golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	mh "github.com/iotaledger/iota.go/v4/merklehasher"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// val is a value whose bytes are anything.
type val []byte

var errVal = errors.New("value without bytes")

func (v val) Bytes() ([]byte, error) {
	if string(v) == "\xffbroken" {
		return nil, errVal
	}
	return v, nil
}

// mNode is the reference tree of a proof.
type mNode struct {
	kind byte // 0 node, 1 leaf hash, 2 value hash
	hash []byte
	l, r *mNode
}

func sum(h crypto.Hash, parts ...[]byte) []byte {
	x := h.New()
	for _, p := range parts {
		x.Write(p)
	}
	return x.Sum(nil)
}

func refRoot(h crypto.Hash, vs [][]byte) []byte {
	switch len(vs) {
	case 0:
		return sum(h)
	case 1:
		return sum(h, []byte{0}, vs[0])
	}
	k := split(len(vs))
	return sum(h, []byte{1}, refRoot(h, vs[:k]), refRoot(h, vs[k:]))
}

func split(n int) int {
	k := 1
	for 2*k < n {
		k *= 2
	}
	return k
}

func refProof(h crypto.Hash, vs [][]byte, i int) *mNode {
	if len(vs) == 1 {
		return &mNode{kind: 2, hash: refRoot(h, vs)}
	}
	k := split(len(vs))
	if i < k {
		return &mNode{l: refProof(h, vs[:k], i), r: &mNode{kind: 1, hash: refRoot(h, vs[k:])}}
	}
	return &mNode{l: &mNode{kind: 1, hash: refRoot(h, vs[:k])}, r: refProof(h, vs[k:], i-k)}
}

func (m *mNode) bytes() []byte {
	if m.kind == 0 {
		return append(append([]byte{0}, m.l.bytes()...), m.r.bytes()...)
	}
	return append([]byte{m.kind, byte(len(m.hash))}, m.hash...)
}

func (m *mNode) json() any {
	if m.kind == 0 {
		return map[string]any{"type": float64(0), "l": m.l.json(), "r": m.r.json()}
	}
	return map[string]any{"type": float64(m.kind), "hash": "0x" + hex.EncodeToString(m.hash)}
}

func (m *mNode) root(h crypto.Hash) []byte {
	if m.kind == 0 {
		return sum(h, []byte{1}, m.l.root(h), m.r.root(h))
	}
	return m.hash
}

func (m *mNode) contains(leaf []byte) bool {
	if m.kind == 0 {
		return m.l.contains(leaf) || m.r.contains(leaf)
	}
	return m.kind == 2 && bytes.Equal(m.hash, leaf)
}

func (m *mNode) nodes() []*mNode {
	if m.kind == 0 {
		return append(append([]*mNode{m}, m.l.nodes()...), m.r.nodes()...)
	}
	return []*mNode{m}
}

func (m *mNode) clone() *mNode {
	c := *m
	c.hash = append([]byte{}, m.hash...)
	if m.kind == 0 {
		c.l, c.r = m.l.clone(), m.r.clone()
	}
	return &c
}

// real makes the code's proof through its decoder.
func (m *mNode) real(rt *rapid.T, viaJSON bool) *mh.Proof[val] {
	if viaJSON {
		j, _ := json.Marshal(m.json())
		p, err := mh.ProofFromJSON[val](j)
		kit.NoErr(rt, err, "decode proof %s", j)
		return p
	}
	b := m.bytes()
	p, n, err := mh.ProofFromBytes[val](b)
	kit.NoErr(rt, err, "decode proof %x", b)
	if n != len(b) {
		kit.Fail(rt, "proof of %d bytes consumed %d", len(b), n)
	}
	return p
}

var hashes = []crypto.Hash{crypto.BLAKE2b_256, crypto.BLAKE2b_256, crypto.BLAKE2b_256, crypto.SHA256, crypto.BLAKE2b_512}

func genVals(g *kit.G, max int) [][]byte {
	n := g.Int(0, 12, "n")
	switch {
	case g.Rare(4, "pow"):
		n = 1<<g.Int(0, 7, "p") + g.Int(-1, 1, "d")
	case g.Rare(4, "many"):
		n = g.Int(0, max, "nn")
	}
	if n < 0 {
		n = 0
	}
	vs := make([][]byte, n)
	fixed := g.Bool("fixed")
	for i := range vs {
		switch {
		case i > 0 && g.Rare(6, "dup"):
			vs[i] = vs[g.Int(0, i-1, "of")]
		case fixed:
			vs[i] = g.Bytes(32, "v")
		default:
			vs[i] = g.Var(0, 70, "v")
		}
	}
	return vs
}

func vals(vs [][]byte) []val {
	r := make([]val, len(vs))
	for i := range vs {
		r[i] = vs[i]
	}
	return r
}

func TestC30_Roots(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		h := rapid.SampledFrom(hashes).Draw(rt, "hash")
		x := mh.NewHasher[val](h)
		vs := genVals(g, 300)
		in := make([][]byte, len(vs))
		for i := range vs {
			in[i] = append([]byte{}, vs[i]...)
		}
		want := refRoot(h, vs)
		got, err := x.HashValues(vals(in))
		kit.NoErr(rt, err, "HashValues")
		if !bytes.Equal(got, want) || !bytes.Equal(x.Hash(in), want) || len(got) != x.Size() || !reflect.DeepEqual(in, vs) {
			kit.Fail(rt, "root of %d values %x, want %x", len(vs), got, want)
		}
		if !bytes.Equal(x.EmptyRoot(), sum(h)) {
			kit.Fail(rt, "empty root %x", x.EmptyRoot())
		}
		// order, number and content matter
		if n := len(vs); n > 0 {
			other := append([][]byte{}, in...)
			what := ""
			switch i := g.Int(0, n-1, "at"); g.Int(0, 4, "change") {
			case 0:
				j := g.Int(0, n-1, "with")
				if bytes.Equal(other[i], other[j]) {
					break
				}
				other[i], other[j], what = other[j], other[i], "exchanging two values"
			case 1:
				other, what = append(other[:i:i], other[i+1:]...), "leaving one out"
			case 2:
				other, what = append(append(other[:i:i], in[i]), in[i:]...), "repeating one"
			case 3:
				other[i], what = append([]byte{0}, other[i]...), "lengthening one"
			case 4:
				if n > 1 { // an inner node taken for a value
					k := split(n)
					other, what = [][]byte{append(refRoot(h, vs[:k]), refRoot(h, vs[k:])...)}, "replacing the tree by its top"
				}
			}
			if what != "" && bytes.Equal(x.Hash(other), got) {
				kit.Fail(rt, "%s keeps the root of %d values", what, n)
			}
		}
		// errors of values are passed on
		if n := len(in); n > 0 && g.Rare(5, "broken") {
			i := g.Int(0, n-1, "bi")
			bad := vals(in)
			bad[i] = val("\xffbroken")
			_, e1 := x.HashValues(bad)
			_, e2 := x.ComputeProofForIndex(bad, g.Int(0, n-1, "pi"))
			_, e3 := x.ComputeProof(bad, bad[i])
			if e1 == nil || e2 == nil || e3 == nil {
				kit.Fail(rt, "a value without bytes is accepted: %v %v %v", e1, e2, e3)
			}
		}
		c.NonTrivial(want)
		c.Label(fmt.Sprintf("n<=%d", bucket(len(vs))))
		c.Sample("%v root of %d values", h, len(vs))
	})
}

func bucket(n int) int {
	for i := 1; ; i *= 2 {
		if n <= i {
			return i
		}
	}
}

func TestC30_Proofs(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		h := rapid.SampledFrom(hashes).Draw(rt, "hash")
		x := mh.NewHasher[val](h)
		vs := genVals(g, 150)
		n := len(vs)
		for _, i := range []int{-1, n, n + g.Int(0, 5, "out"), -g.Int(1, 300, "neg")} {
			var err error
			if p := kit.Panics(func() { _, err = x.ComputeProofForIndex(vals(vs), i) }); p != nil || err == nil {
				kit.Fail(rt, "a proof for index %d of %d values is no error (%v)", i, n, p)
			}
		}
		if _, err := x.ComputeProof(vals(vs), val("not among the values")); !errors.Is(err, mh.ErrProofValueNotFound) {
			kit.Fail(rt, "a proof for a foreign value: %v", err)
		}
		if n == 0 {
			return
		}
		root := refRoot(h, vs)
		i := g.Int(0, n-1, "i")
		if g.Rare(4, "last") {
			i = n - 1
		}
		m := refProof(h, vs, i)
		p, err := x.ComputeProofForIndex(vals(vs), i)
		kit.NoErr(rt, err, "proof for %d of %d", i, n)
		first := i
		for j := n - 1; j >= 0; j-- {
			if bytes.Equal(vs[j], vs[i]) {
				first = j
			}
		}
		m2 := refProof(h, vs, first)
		p2, err := x.ComputeProof(vals(vs), vs[i])
		kit.NoErr(rt, err, "proof for a value")
		for _, y := range []struct {
			p *mh.Proof[val]
			m *mNode
		}{{p, m}, {p2, m2}, {m.real(rt, false), m}, {m.real(rt, true), m}} {
			b, err := y.p.Bytes()
			kit.NoErr(rt, err, "proof bytes")
			if !bytes.Equal(b, y.m.bytes()) {
				kit.Fail(rt, "proof for %d of %d:\n got  %x\n want %x", i, n, b, y.m.bytes())
			}
			j, err := y.p.JSONEncode()
			kit.NoErr(rt, err, "proof json")
			var a any
			if json.Unmarshal(j, &a) != nil || !reflect.DeepEqual(a, y.m.json()) {
				kit.Fail(rt, "proof JSON %s", j)
			}
			ok, err := y.p.ContainsValue(vs[i], x)
			kit.NoErr(rt, err, "contains")
			if !ok || !bytes.Equal(y.p.Hash(x), root) {
				kit.Fail(rt, "the proof for %d of %d contains it: %v, hashes to %x, root %x", i, n, ok, y.p.Hash(x), root)
			}
		}
		// alterations
		in := map[string]bool{}
		for _, v := range vs {
			in[string(v)] = true
		}
		cand := [][]byte{nil, {0}, {1}, g.Var(0, 70, "cand"), append([]byte{0}, vs[i]...)}
		for k := 0; k < 4; k++ {
			cand = append(cand, vs[g.Int(0, n-1, "cv")])
		}
		if n > 1 {
			k := split(n)
			top := append(refRoot(h, vs[:k]), refRoot(h, vs[k:])...)
			cand = append(cand, top, append([]byte{1}, top...), refRoot(h, vs[:k]))
		}
		sound := func(what string, p *mh.Proof[val], m *mNode) {
			var root2 []byte
			if e := kit.Panics(func() { root2 = p.Hash(x) }); e != nil {
				kit.Fail(rt, "%s: hashing panics: %v", what, e)
			}
			if m != nil && !bytes.Equal(root2, m.root(h)) {
				kit.Fail(rt, "%s: the proof hashes to %x, want %x", what, root2, m.root(h))
			}
			for _, v := range cand {
				ok, err := p.ContainsValue(v, x)
				kit.NoErr(rt, err, "contains")
				if m != nil && ok != m.contains(sum(h, []byte{0}, v)) {
					kit.Fail(rt, "%s: contains %x: %v", what, v, ok)
				}
				if ok && bytes.Equal(root2, root) && !in[string(v)] {
					kit.Fail(rt, "%s: the proof hashes to the root and contains %x, which is not among the %d values\n proof %x", what, v, n, mustBytes(p))
				}
			}
		}
		hit := 0
		for k := 0; k < 12; k++ {
			q := m.clone()
			nodes := q.nodes()
			y := nodes[g.Int(0, len(nodes)-1, "node")]
			what := ""
			switch g.Int(0, 8, "alter") {
			case 0: // one bit of a hash
				if y.kind == 0 || len(y.hash) == 0 {
					continue
				}
				y.hash[g.Int(0, len(y.hash)-1, "byte")] ^= 1 << g.Int(0, 7, "bit")
				what = "bit"
			case 1:
				if y.kind == 0 {
					y.l, y.r, what = y.r, y.l, "exchange"
				}
			case 2:
				if y.kind != 0 {
					y.kind, what = 3-y.kind, "leaf and value hash confused"
				}
			case 3: // a subtree collapsed to its hash, as value or leaf
				*y = mNode{kind: byte(g.Int(1, 2, "as")), hash: y.root(h)}
				what = "collapsed"
			case 4: // a hash split over two neighbours
				if y.kind == 0 && y.l.kind != 0 && y.r.kind != 0 {
					all := append(append([]byte{}, y.l.hash...), y.r.hash...)
					cut := g.Int(0, len(all), "cut")
					if cut > 255 || len(all)-cut > 255 {
						continue
					}
					y.l.hash, y.r.hash = all[:cut], all[cut:]
					y.l.kind, y.r.kind = byte(g.Int(1, 2, "lk")), byte(g.Int(1, 2, "rk"))
					what = "cut moved"
				}
			case 5: // a candidate value planted
				*y = mNode{kind: 2, hash: sum(h, []byte{0}, cand[g.Int(0, len(cand)-1, "plant")])}
				what = "planted"
			case 6:
				*y = mNode{l: y.clone(), r: &mNode{kind: 2, hash: sum(h, []byte{0}, cand[g.Int(0, len(cand)-1, "plant")])}}
				what = "extended"
			case 7: // the inclusion of another value
				q, what = refProof(h, vs, g.Int(0, n-1, "other")), "other proof"
			case 8:
				q, what = y, "part"
			}
			if what == "" {
				continue
			}
			if what == "bit" && bytes.Equal(q.root(h), root) {
				kit.Harness(rt, "bit without effect")
			}
			sound(what, q.real(rt, g.Bool("json")), q)
			c.Label(what)
			if bytes.Equal(q.root(h), root) {
				hit++
			}
		}
		// altered encodings
		for k := 0; k < 6; k++ {
			b, how := g.MutateBytes(m.bytes())
			var p *mh.Proof[val]
			var err error
			if e := kit.Panics(func() { p, _, err = mh.ProofFromBytes[val](b) }); e != nil {
				kit.Fail(rt, "decoding %x (%s) panics: %v", b, how, e)
			}
			if err == nil {
				sound("bytes "+how, p, nil)
			}
		}
		// altered JSON
		for k := 0; k < 2; k++ {
			doc, _ := json.Marshal(m.json())
			b, how := g.MutateJSON(doc)
			var p *mh.Proof[val]
			var err error
			if e := kit.Panics(func() { p, err = mh.ProofFromJSON[val](b) }); e != nil {
				kit.Fail(rt, "decoding %s (%s) panics: %v", b, how, e)
			}
			if err == nil {
				if p == nil {
					kit.Fail(rt, "no proof and no error for %s (%s)", b, how)
				}
				sound("json "+how, p, nil)
			}
		}
		if ok, err := p.ContainsValue(val("\xffbroken"), x); ok || err == nil {
			kit.Fail(rt, "a value without bytes is contained: %v %v", ok, err)
		}
		c.NonTrivial(m.bytes())
		c.Label(fmt.Sprintf("n<=%d", bucket(n)))
		c.Sample("proof for %d of %d values; %d alterations still hash to the root", i, n, hit)
	})
}

func mustBytes(p *mh.Proof[val]) []byte {
	b, err := p.Bytes()
	if err != nil {
		panic(err)
	}
	return b
}

// TestC30_IDs: trees over the identifiers the protocol uses, and the proofs of the roots.
func TestC30_IDs(t *testing.T) {
	kit.Check(t, 1000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		n := g.Int(0, 20, "n")
		var ids iotago.BlockIDs
		var raw [][]byte
		for i := 0; i < n; i++ {
			id := g.BlockID("id")
			ids, raw = append(ids, id), append(raw, append([]byte{}, id[:]...))
		}
		x := mh.NewHasher[iotago.BlockID](crypto.BLAKE2b_256)
		got, err := x.HashValues(ids)
		kit.NoErr(rt, err, "hash")
		if want := kit.RefMerkle(raw); !bytes.Equal(got, want[:]) {
			kit.Fail(rt, "root of %d block IDs %x, want %x", n, got, want)
		}
		r := iotago.NewRoots(g.B32("0"), g.B32("1"), g.B32("2"), g.B32("3"), g.B32("4"), g.B32("5"), g.B32("6"), g.B32("7"))
		leaves := [][]byte{r.TangleRoot[:], r.StateMutationRoot[:], r.StateRoot[:], r.AccountRoot[:], r.AttestationsRoot[:], r.CommitteeRoot[:], r.RewardsRoot[:], r.ProtocolParametersHash[:]}
		root := kit.RefMerkle(leaves)
		if r.ID() != iotago.Identifier(root) {
			kit.Fail(rt, "roots ID %x, want %x", r.ID(), root)
		}
		hs := mh.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
		for _, y := range []struct {
			name   string
			p      *mh.Proof[iotago.Identifier]
			v      iotago.Identifier
			i      int
			verify func(p *mh.Proof[iotago.Identifier], v iotago.Identifier, root iotago.Identifier) bool
		}{
			{"tangle", r.TangleProof(), r.TangleRoot, 0, iotago.VerifyProof},
			{"mutation", r.MutationProof(), r.StateMutationRoot, 1, iotago.VerifyProof},
			{"attestations", r.AttestationsProof(), r.AttestationsRoot, 4, iotago.VerifyProof},
		} {
			b, err := y.p.Bytes()
			kit.NoErr(rt, err, "bytes")
			if want := refProof(crypto.BLAKE2b_256, leaves, y.i).bytes(); !bytes.Equal(b, want) {
				kit.Fail(rt, "%s proof %x, want %x", y.name, b, want)
			}
			if ok, err := y.p.ContainsValue(y.v, hs); !ok || err != nil || !bytes.Equal(y.p.Hash(hs), root[:]) || !y.verify(y.p, y.v, root) {
				kit.Fail(rt, "%s proof does not verify", y.name)
			}
			bad := y.v
			bad[g.Int(0, 31, "b")] ^= 1
			if y.verify(y.p, bad, root) || y.verify(y.p, y.v, bad) {
				kit.Fail(rt, "%s proof verifies for another value or root", y.name)
			}
		}
		c.NonTrivial(root)
	})
}
