package t_codec

import (
	"bytes"
	"encoding/binary"
	"math"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// C02 (random edits): whatever bytes the validating decoder accepts are exactly the encoding of the decoded object.
func TestC02_Mutations(t *testing.T) {
	kit.Check(t, 4000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		k := kit.GenKind(rt)
		orig := k.Ref(k.Gen(g))
		mut, desc := g.MutateBytes(orig)
		if kit.GiantLength(k.Name, mut) {
			c.Label("skipped: giant length prefix")
			return
		}
		d, n, err := k.Decode(g.E, mut)
		c.Label(k.Name)
		if err != nil {
			c.Label("rejected")
			return
		}
		if n > len(mut) {
			kit.Fail(rt, "%s: claims to have consumed %d of %d bytes", k.Name, n, len(mut))
		}
		if (k.Name == "block" || k.Name == "attestation") && n >= 17 && binary.LittleEndian.Uint64(mut[9:]) > math.MaxInt64 && kit.IsKnown("C02", "issuing-time-clamped") {
			// listed finding: the rest of the object must still be canonical
			kit.Reproduced("issuing-time-clamped")
			c.Label("listed finding: issuing time beyond int64")
			mut = append([]byte{}, mut...)
			binary.LittleEndian.PutUint64(mut[9:], math.MaxInt64)
			orig = mut[:n]
		}
		if got := k.Ref(d); !bytes.Equal(got, mut[:n]) {
			kit.Fail(rt, "%s (%s): accepted bytes are not the encoding of the decoded object\n bytes  %x\n object %x", k.Name, desc, mut[:n], got)
		}
		b2, err := kit.Encode(g.E, d)
		kit.NoErr(rt, err, "%s (%s): decoder accepted %x but validating encoder refuses the object", k.Name, desc, mut[:n])
		if !bytes.Equal(b2, mut[:n]) {
			kit.Fail(rt, "%s (%s): re-encoding differs\n bytes %x\n again %x", k.Name, desc, mut[:n], b2)
		}
		if k.ID != nil {
			d2, _, err := k.Decode(g.E, b2)
			kit.NoErr(rt, err, "%s: decoding again", k.Name)
			i1, e1 := k.ID(d)
			i2, e2 := k.ID(d2)
			if (e1 == nil) != (e2 == nil) || i1 != i2 {
				kit.Fail(rt, "%s: identity differs after re-encoding", k.Name)
			}
			// a different accepted byte string must be a different object
			if d0, _, err := k.Decode(g.E, orig); err == nil && !bytes.Equal(orig, mut[:n]) && k.Name != "roots" {
				if i0, e0 := k.ID(d0); e0 == nil && e1 == nil && i0 == i1 {
					kit.Fail(rt, "%s (%s): two encodings of one identity\n %x\n %x", k.Name, desc, orig, mut[:n])
				}
			}
		}
		if !bytes.Equal(mut[:n], orig) {
			c.Label("accepted-mutant")
			c.NonTrivial(k.Name, mut[:n])
			c.Sample("accepted %s after %s: %s", k.Name, desc, hexs(mut[:n]))
		}
	})
}

// C02 (structured edits): disordered, duplicated, padded and truncated encodings are rejected.
func TestC02_NonCanonical(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		reject := func(k kit.Kind, what string, b []byte) {
			_, n, err := k.Decode(g.E, b)
			if err == nil {
				kit.Fail(rt, "%s with %s is accepted (%d of %d bytes): %x", k.Name, what, n, len(b), b)
			}
			c.Label(what)
			c.NonTrivial(what, b)
			c.Sample("rejected %s (%s): %s", k.Name, what, hexs(b))
		}
		pick := func(names []string, edits []func() bool) string {
			i := g.Int(0, len(names)-1, "which")
			edits[i]()
			return names[i]
		}
		switch g.Int(0, 7, "mode") {
		case 0, 1, 2:
			k := kit.KindByName("signedtx")
			tx := k.Gen(g).(*iotago.SignedTransaction)
			n := pick(g.Disorders(tx.Transaction))
			reject(k, n, kit.EncSignedTx(tx))
		case 3:
			k := kit.KindByName("block")
			b := k.Gen(g).(*iotago.Block)
			n := pick(g.BlockDisorders(b))
			reject(k, n, kit.EncBlock(b))
		case 4: // standalone addresses and block issuer keys
			m := []string{"address-multi", "address-restricted"}[g.Int(0, 1, "a")]
			k := kit.KindByName(m)
			a := k.Gen(g).(iotago.Address)
			n := pick(g.AddrDisorders(a))
			reject(k, n, kit.EncAddr(a))
		case 5: // metadata entries out of order or duplicated
			k := kit.KindByName("feat-metadata")
			tag := byte(2)
			if g.Bool("state") {
				k = kit.KindByName("feat-state-metadata")
				tag = 3
			}
			k1 := rapid.StringMatching(`[a-m]{1,5}`).Draw(rt, "k1")
			k2 := k1 + "z"
			if g.Bool("dup") {
				k2 = k1
			}
			e := func(key string) []byte {
				v := g.Var(0, 5, "v")
				return kit.Cat([]byte{byte(len(key))}, []byte(key), []byte{byte(len(v)), 0}, v)
			}
			reject(k, "metadata entries disordered", kit.Cat([]byte{tag, 2}, e(k2), e(k1)))
		case 6: // every strict prefix
			k := kit.GenKind(rt)
			b := k.Ref(k.Gen(g))
			n := g.Int(0, len(b)-1, "cut")
			if _, m, err := k.Decode(g.E, b[:n]); err == nil {
				kit.Fail(rt, "%s: truncation to %d of %d bytes is accepted (consumed %d): %x", k.Name, n, len(b), m, b)
			}
			c.Label("truncated")
			c.NonTrivial("cut", k.Name, b[:n])
		case 7: // unknown type tags
			k := kit.Kinds[g.Int(0, len(kit.Kinds)-1, "kind")]
			if untagged[k.Name] {
				k = kit.KindByName("output-basic")
			}
			b := k.Ref(k.Gen(g))
			b[0] = byte(g.Int(0, 255, "tag"))
			if known(k.Name, b[0]) {
				b[0] = 99
			}
			reject(k, "unknown type tag", b)
		}
	})
}

// kinds which do not start with a type tag
var untagged = map[string]bool{"block": true, "tx": true, "attestation": true, "commitment": true, "roots": true}

func known(name string, tag byte) bool {
	switch {
	case len(name) > 7 && name[:7] == "output-":
		return tag <= 5
	case len(name) > 8 && name[:8] == "address-":
		return tag%8 == 0 && tag <= 48
	case len(name) > 7 && name[:7] == "unlock-":
		return tag <= 6
	case name == "signature" || name == "token-scheme" || name == "protocol-parameters":
		return tag == 0
	}
	return tag <= 7
}

// C02 (listed finding): an issuing time above the int64 range is read as the largest int64.
func TestC02_IssuingTime(t *testing.T) {
	kit.Check(t, 60, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		k := kit.KindByName("attestation")
		b := k.Ref(k.Gen(g))
		binary.LittleEndian.PutUint64(b[9:], math.MaxInt64+1+g.U64Max(math.MaxInt64, "t"))
		d, n, err := k.Decode(g.E, b)
		if err != nil {
			c.Label("rejected")
			return
		}
		if !bytes.Equal(k.Ref(d), b[:n]) {
			if kit.IsKnown("C02", "issuing-time-clamped") {
				kit.Reproduced("issuing-time-clamped")
				return
			}
			kit.Fail(rt, "an attestation with issuing time %x is accepted but is not the encoding of the decoded object", b[9:17])
		}
	})
}
