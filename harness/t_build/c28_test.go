package t_build

import (
	"bytes"
	stded "crypto/ed25519"
	"errors"
	"math/big"
	"testing"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// messy gives the parents out of order and with repetitions.
func messy(g *kit.G, ids iotago.BlockIDs, l string) iotago.BlockIDs {
	r := append(iotago.BlockIDs{}, ids...)
	for i := 0; i < len(ids) && g.Rare(3, l+".rep"); i++ {
		r = append(r, ids[g.Int(0, len(ids)-1, l+".which")])
	}
	if len(r) > 1 {
		r = rapid.Permutation(r).Draw(g.T, l+".perm")
	}
	return r
}

// refValid is the verification of a block signature made with an honest key.
func refValid(b *iotago.Block) bool {
	s, ok := b.Signature.(*iotago.Ed25519Signature)
	return ok && s.PublicKey != [32]byte{} && stded.Verify(s.PublicKey[:], kit.RefBlockMsg(b), s.Signature[:])
}

// build puts the content of want into a builder, the calls in any order, and signs with key k.
func build(rt *rapid.T, g *kit.G, want *iotago.Block, rmc *uint64, k int, withSigner bool) (*iotago.Block, error, bool) {
	api := g.E.API()
	key := kit.Keys()[k]
	signer := iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(key.Addr, key.Priv))
	h := want.Header
	zone := time.FixedZone("x", 3600*g.Int(-12, 12, "zone"))
	checks := []func(){}
	parents := func(l string, ids iotago.BlockIDs, set func(iotago.BlockIDs)) func() {
		m := messy(g, ids, l)
		keep := append(iotago.BlockIDs{}, m...)
		checks = append(checks, func() {
			if len(m) != len(keep) {
				kit.Fail(rt, "parents of the caller changed")
			}
			for i := range m {
				if m[i] != keep[i] {
					kit.Fail(rt, "the builder reordered the parents given by the caller")
				}
			}
		})
		return func() {
			set(m)
			if g.Rare(2, l+".reuse") { // the caller goes on with its slice
				for i := range m {
					m[i], keep[i] = iotago.BlockID{1}, iotago.BlockID{1}
				}
			}
		}
	}
	run := func(calls []func()) {
		if len(calls) > 0 {
			for _, i := range rapid.Permutation(seq(len(calls))).Draw(rt, "order") {
				calls[i]()
			}
		}
	}
	var got *iotago.Block
	var err error
	overflow := false
	switch body := want.Body.(type) {
	case *iotago.BasicBlockBody:
		x := builder.NewBasicBlockBuilder(api)
		calls := []func(){
			func() { x.ProtocolVersion(h.ProtocolVersion) },
			func() { x.IssuingTime(h.IssuingTime.In(zone)) },
			func() { x.SlotCommitmentID(h.SlotCommitmentID) },
			func() { x.LatestFinalizedSlot(h.LatestFinalizedSlot) },
			parents("s", body.StrongParents, func(i iotago.BlockIDs) { x.StrongParents(i) }),
			parents("w", body.WeakParents, func(i iotago.BlockIDs) { x.WeakParents(i) }),
			parents("l", body.ShallowLikeParents, func(i iotago.BlockIDs) { x.ShallowLikeParents(i) }),
			func() { x.Payload(body.Payload) },
		}
		if rmc == nil {
			calls = append(calls, func() { x.MaxBurnedMana(body.MaxBurnedMana) })
		}
		run(calls)
		if rmc != nil {
			x.CalculateAndSetMaxBurnedMana(iotago.Mana(*rmc))
			cost := new(big.Int).Mul(kit.RefWork{W: g.E.WS}.Block(want), new(big.Int).SetUint64(*rmc))
			overflow = !cost.IsUint64()
			body.MaxBurnedMana = iotago.Mana(cost.Uint64())
		}
		if g.Rare(8, "no key") {
			return noKey(rt, g, x, h.IssuerID, x.SignWithSigner, x.Build, func() { x.MaxBurnedMana(1) })
		}
		if withSigner {
			x.SignWithSigner(h.IssuerID, signer, key.Addr)
		} else {
			x.Sign(h.IssuerID, key.Priv)
		}
		got, err = x.Build()
		if err == nil && g.Rare(4, "twice") {
			b1 := kit.EncBlock(got)
			got, err = x.Build()
			if err != nil || !bytes.Equal(b1, kit.EncBlock(got)) {
				kit.Fail(rt, "building twice differs: %v", err)
			}
		}
	case *iotago.ValidationBlockBody:
		x := builder.NewValidationBlockBuilder(api)
		run([]func(){
			func() { x.ProtocolVersion(h.ProtocolVersion) },
			func() { x.IssuingTime(h.IssuingTime.In(zone)) },
			func() { x.SlotCommitmentID(h.SlotCommitmentID) },
			func() { x.LatestFinalizedSlot(h.LatestFinalizedSlot) },
			parents("s", body.StrongParents, func(i iotago.BlockIDs) { x.StrongParents(i) }),
			parents("w", body.WeakParents, func(i iotago.BlockIDs) { x.WeakParents(i) }),
			parents("l", body.ShallowLikeParents, func(i iotago.BlockIDs) { x.ShallowLikeParents(i) }),
			func() { x.HighestSupportedVersion(body.HighestSupportedVersion) },
			func() { x.ProtocolParametersHash(body.ProtocolParametersHash) },
		})
		if g.Rare(8, "no key") {
			return noKey(rt, g, x, h.IssuerID, x.SignWithSigner, x.Build, func() { x.HighestSupportedVersion(1) })
		}
		if withSigner {
			x.SignWithSigner(h.IssuerID, signer, key.Addr)
		} else {
			x.Sign(h.IssuerID, key.Priv)
		}
		got, err = x.Build()
	}
	for _, f := range checks {
		f()
	}
	return got, err, overflow
}

// errNoKey marks a build whose signer did not hold the key asked for.
var errNoKey = errors.New("no key")

// noKey signs with a signer that lacks the key: no block may come of it, whatever is called afterwards, short of signing anew.
func noKey[B any](rt *rapid.T, g *kit.G, _ B, issuer iotago.AccountID, sign func(iotago.AccountID, iotago.AddressSigner, iotago.Address) B, build func() (*iotago.Block, error), more func()) (*iotago.Block, error, bool) {
	ks := kit.Keys()
	i := g.Int(0, len(ks)-1, "missing")
	var have []iotago.AddressKeys
	for d, n := 1, g.Int(0, 3, "have"); d <= n; d++ {
		k := ks[(i+d)%len(ks)]
		have = append(have, iotago.NewAddressKeysForEd25519Address(k.Addr, k.Priv))
	}
	var b *iotago.Block
	var err error
	if p := kit.Panics(func() {
		sign(issuer, iotago.NewInMemoryAddressSigner(have...), ks[i].Addr)
		b, err = build()
	}); p != nil || err == nil || b != nil {
		kit.Fail(rt, "signing without the key gave block %v, error %v, panic %v", b != nil, err, p)
	}
	more()
	if b, err = build(); err == nil || b != nil {
		kit.Fail(rt, "the failure to sign is forgotten after another call")
	}
	return nil, errNoKey, false
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func verify(rt *rapid.T, b *iotago.Block) bool {
	var ok bool
	var err error
	if p := kit.Panics(func() { ok, err = b.VerifySignature() }); p != nil {
		kit.Fail(rt, "VerifySignature panics: %v", p)
	}
	return ok && err == nil
}

func verifyAtt(rt *rapid.T, a *iotago.Attestation) bool {
	var ok bool
	var err error
	if p := kit.Panics(func() { ok, err = a.VerifySignature() }); p != nil {
		kit.Fail(rt, "Attestation.VerifySignature panics: %v", p)
	}
	return ok && err == nil
}

func TestC28_Build(t *testing.T) {
	kit.Check(t, 350, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		api := g.E.API()
		want := g.Block()
		var rmc *uint64
		if _, ok := want.Body.(*iotago.BasicBlockBody); ok && g.Rare(2, "rmc?") {
			v := g.U64("rmc")
			if !g.Rare(5, "bigrmc") {
				v %= 1 << 24
			}
			rmc = &v
		}
		k := g.Int(0, kit.KeyN-1, "key")
		got, err, overflow := build(rt, g, want, rmc, k, g.Rare(2, "signer"))
		if overflow {
			if err == nil {
				kit.Fail(rt, "a mana cost that does not fit 64 bits was accepted: %d", got.Body.(*iotago.BasicBlockBody).MaxBurnedMana)
			}
			c.NonTrivial("cost overflow")
			return
		}
		if errors.Is(err, errNoKey) {
			c.NonTrivial("no key")
			return
		}
		kit.NoErr(rt, err, "build")
		sig, ok := got.Signature.(*iotago.Ed25519Signature)
		if !ok {
			kit.Fail(rt, "signature %T", got.Signature)
		}
		key := kit.Keys()[k]
		want.Signature = sig
		if !bytes.Equal(kit.EncBlock(want), kit.EncBlock(got)) {
			kit.Fail(rt, "the block does not carry what was set:\n want %x\n got  %x", kit.EncBlock(want), kit.EncBlock(got))
		}
		if !bytes.Equal(sig.PublicKey[:], key.Priv.Public().(stded.PublicKey)) || !refValid(want) || !verify(rt, got) {
			kit.Fail(rt, "the signature of the built block does not verify (reference %v)", refValid(want))
		}
		enc, err := api.Encode(got)
		kit.NoErr(rt, err, "encode")
		dec, n, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(enc)
		kit.NoErr(rt, err, "decode the built block")
		if n != len(enc) || !verify(rt, dec) {
			kit.Fail(rt, "the decoded block does not verify")
		}
		id := kit.RefBlockID(g.E.Spec, got)
		j, err := api.JSONEncode(got)
		kit.NoErr(rt, err, "json")
		jd := new(iotago.Block)
		kit.NoErr(rt, api.JSONDecode(j, jd), "json decode")
		if !verify(rt, jd) || jd.MustID() != id || dec.MustID() != id || got.MustID() != id {
			kit.Fail(rt, "block IDs or signatures differ after a round trip")
		}
		// the attestation
		att := iotago.NewAttestation(api, got)
		ab, err := att.Bytes()
		kit.NoErr(rt, err, "attestation bytes")
		bh := kit.Blake(kit.EncBody(got.Body))
		if w := append(append(kit.EncHeader(got.Header), bh[:]...), kit.EncSig(sig)...); !bytes.Equal(w, ab) {
			kit.Fail(rt, "attestation bytes %x, want %x", ab, w)
		}
		for _, a := range []*iotago.Attestation{att, decAtt(rt, api, ab), jsonAtt(rt, api, att)} {
			aid, err := a.BlockID()
			kit.NoErr(rt, err, "attestation block id")
			if aid != id || a.Slot() != got.Slot() || !verifyAtt(rt, a) {
				kit.Fail(rt, "the attestation has block ID %s (want %s) and verifies: %v", aid, id, verifyAtt(rt, a))
			}
		}
		// every alteration
		bad := func(what string, b *iotago.Block) {
			if verify(rt, b) {
				kit.Fail(rt, "altered %s still verifies: %x (was %x)", what, kit.EncBlock(b), enc)
			}
			if b.MustID() == id {
				kit.Fail(rt, "altered %s keeps the block ID", what)
			}
			a := iotago.NewAttestation(api, b)
			if verifyAtt(rt, a) {
				kit.Fail(rt, "attestation of a block with altered %s still verifies", what)
			}
		}
		dead, alive := 0, 0
		flip := func(bit int) {
			x := append([]byte{}, enc...)
			x[bit/8] ^= 1 << (bit % 8)
			d, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(x)
			if err != nil {
				dead++
			} else {
				alive++
				bad("bit", d)
			}
			if bit < 8*iotago.BlockHeaderLength || bit >= 8*(len(enc)-97) {
				y := append([]byte{}, ab...)
				i := bit/8 - len(enc) + len(ab)
				if bit < 8*iotago.BlockHeaderLength {
					i = bit / 8
				}
				y[i] ^= 1 << (bit % 8)
				badAtt(rt, api, y, id)
			}
		}
		last := 8 * (len(enc) - 1)
		for i, n := 0, 12; i < n; i++ {
			flip(g.Int(0, last+7, "bit"))
		}
		flip(g.Int(0, 8*iotago.BlockHeaderLength-1, "hbit"))
		flip(g.Int(8*iotago.BlockHeaderLength, 8*(len(enc)-96)-1, "bbit"))
		flip(g.Int(8*(len(enc)-96), 8*(len(enc)-64)-1, "kbit"))
		flip(g.Int(8*(len(enc)-64), last+7, "sbit"))
		y := append([]byte{}, ab...)
		y[iotago.BlockHeaderLength+g.Int(0, 31, "bhb")] ^= 1 << g.Int(0, 7, "bhbit")
		badAtt(rt, api, y, id)
		// alterations that decoding would refuse reach the verification too
		for what, f := range map[string]func(b *iotago.Block){
			"version": func(b *iotago.Block) { b.Header.ProtocolVersion++ },
			"network": func(b *iotago.Block) { b.Header.NetworkID ^= 1 << 63 },
			"time":    func(b *iotago.Block) { b.Header.IssuingTime = b.Header.IssuingTime.Add(1) },
			"slot commitment": func(b *iotago.Block) {
				b.Header.SlotCommitmentID[35] ^= 1
			},
			"finalized slot": func(b *iotago.Block) { b.Header.LatestFinalizedSlot ^= 1 << 31 },
			"issuer":         func(b *iotago.Block) { b.Header.IssuerID[31] ^= 128 },
			"strong parent": func(b *iotago.Block) {
				s := b.Body.StrongParentIDs()
				s[len(s)-1][35] ^= 1
			},
			"weak parents": func(b *iotago.Block) {
				switch x := b.Body.(type) {
				case *iotago.BasicBlockBody:
					x.WeakParents = append(x.WeakParents, iotago.BlockID{1})
				case *iotago.ValidationBlockBody:
					x.WeakParents = append(x.WeakParents, iotago.BlockID{1})
				}
			},
			"parent kind": func(b *iotago.Block) {
				switch x := b.Body.(type) {
				case *iotago.BasicBlockBody:
					x.WeakParents = append(x.WeakParents, x.StrongParents[0])
					x.StrongParents = x.StrongParents[1:]
				case *iotago.ValidationBlockBody:
					x.ShallowLikeParents = append(x.ShallowLikeParents, x.StrongParents[0])
					x.StrongParents = x.StrongParents[1:]
				}
			},
			"body": func(b *iotago.Block) {
				switch x := b.Body.(type) {
				case *iotago.BasicBlockBody:
					x.MaxBurnedMana++
				case *iotago.ValidationBlockBody:
					x.ProtocolParametersHash[0] ^= 1
				}
			},
			"payload": func(b *iotago.Block) {
				switch x := b.Body.(type) {
				case *iotago.BasicBlockBody:
					if _, ok := x.Payload.(*iotago.CandidacyAnnouncement); ok {
						x.Payload = &iotago.TaggedData{}
					} else {
						x.Payload = &iotago.CandidacyAnnouncement{}
					}
				case *iotago.ValidationBlockBody:
					x.HighestSupportedVersion ^= 255
				}
			},
			"other key's signature": func(b *iotago.Block) {
				o := kit.Keys()[(k+1)%kit.KeyN]
				s := b.Signature.(*iotago.Ed25519Signature)
				copy(s.PublicKey[:], o.Priv.Public().(stded.PublicKey))
			},
			"other message's signature": func(b *iotago.Block) {
				m := kit.RefBlockMsg(b)
				m[0] ^= 1
				copy(b.Signature.(*iotago.Ed25519Signature).Signature[:], stded.Sign(key.Priv, m))
			},
		} {
			d, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(enc)
			kit.NoErr(rt, err, "decode")
			// sometimes the block was looked at before it is altered
			seen := g.Bool("verified before")
			if seen && (!verify(rt, d) || d.MustID() != id || !verifyAtt(rt, iotago.NewAttestation(api, d))) {
				kit.Fail(rt, "the decoded block does not verify")
			}
			f(d)
			bad(what, d)
			if seen {
				c.Label("verified, then altered")
			}
		}
		// the same attestation or block, altered in place
		for i := 0; i < 2; i++ {
			a := decAtt(rt, api, ab)
			if x, err := a.BlockID(); !verifyAtt(rt, a) || err != nil || x != id {
				kit.Fail(rt, "the decoded attestation does not verify")
			}
			ls := kit.Leaves(a)
			l := ls[g.Int(0, len(ls)-1, "att leaf")]
			l.Do(g.U64("att k"))
			if x, err := a.BlockID(); verifyAtt(rt, a) || err == nil && x == id {
				kit.Fail(rt, "the attestation with %s changed verifies or keeps its block ID", l.Path)
			}
		}
		for i := 0; i < 3; i++ {
			d, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(enc)
			kit.NoErr(rt, err, "decode")
			if !verify(rt, d) {
				kit.Fail(rt, "the decoded block does not verify")
			}
			ls := kit.Leaves(d)
			l := ls[g.Int(0, len(ls)-1, "block leaf")]
			l.Do(g.U64("block k"))
			if !bytes.Equal(kit.EncBlock(d), enc) && verify(rt, d) {
				kit.Fail(rt, "the block with %s changed still verifies: %x (was %x)", l.Path, kit.EncBlock(d), enc)
			}
		}
		if alive > 0 {
			c.NonTrivial("altered", id)
		}
		c.Label(g.E.Name)
		c.Sample("%T %d bytes, %d single-bit alterations decode, %d do not", want.Body, len(enc), alive, dead)
	})
}

func bucket(n int) int {
	for i := 1; ; i *= 2 {
		if n <= i {
			return i
		}
	}
}

func decAtt(rt *rapid.T, api iotago.API, b []byte) *iotago.Attestation {
	a, n, err := iotago.AttestationFromBytes(iotago.SingleVersionProvider(api))(b)
	kit.NoErr(rt, err, "decode attestation")
	if n != len(b) {
		kit.Fail(rt, "attestation: %d of %d bytes", n, len(b))
	}
	return a
}

func jsonAtt(rt *rapid.T, api iotago.API, a *iotago.Attestation) *iotago.Attestation {
	j, err := api.JSONEncode(a)
	kit.NoErr(rt, err, "attestation json")
	d := new(iotago.Attestation)
	kit.NoErr(rt, api.JSONDecode(j, d), "attestation json decode")
	return d
}

func badAtt(rt *rapid.T, api iotago.API, b []byte, id iotago.BlockID) {
	a, _, err := iotago.AttestationFromBytes(iotago.SingleVersionProvider(api))(b)
	if err != nil {
		return
	}
	if verifyAtt(rt, a) {
		kit.Fail(rt, "an altered attestation verifies: %x", b)
	}
	if x, err := a.BlockID(); err != nil || x == id {
		kit.Fail(rt, "an altered attestation keeps the block ID (%v)", err)
	}
}

// TestC28_Keys: whatever the key and signature, the attestation verifies exactly if the block does, and never without a key.
func TestC28_Keys(t *testing.T) {
	kit.Check(t, 500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		api := g.E.API()
		b := g.Block()
		s := new(iotago.Ed25519Signature)
		kind := g.Int(0, 4, "kind")
		switch kind {
		case 0: // no key, a signature of small order that holds for a part of all messages
			s.Signature[0] = 1
		case 1:
			s.Signature[0] = 0
			s.Signature[31] = byte(g.Int(0, 1, "sign")) << 7
		case 2: // an honest signature, the key removed
			copy(s.Signature[:], stded.Sign(kit.Keys()[0].Priv, kit.RefBlockMsg(b)))
		case 3:
			s.PublicKey, s.Signature = g.B32("pk"), [64]byte(g.Bytes(64, "s"))
		case 4:
			copy(s.PublicKey[:], kit.Keys()[1].Priv.Public().(stded.PublicKey))
			copy(s.Signature[:], stded.Sign(kit.Keys()[1].Priv, kit.RefBlockMsg(b)))
		}
		b.Signature = s
		vb := verify(rt, b)
		a := iotago.NewAttestation(api, b)
		va := verifyAtt(rt, a)
		if kind < 3 && vb {
			kit.Fail(rt, "a block without a public key verifies")
		}
		if kind == 4 && !vb {
			kit.Fail(rt, "an honestly signed block does not verify")
		}
		if va != vb {
			kit.Fail(rt, "signature kind %d (key %x, signature %x): block verifies %v, its attestation %v", kind, s.PublicKey, s.Signature, vb, va)
		}
		c.NonTrivial(kind)
	})
}
