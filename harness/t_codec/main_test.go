package t_codec

import (
	"bytes"
	"io"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

func hexs(b []byte) string {
	if len(b) > 60 {
		b = b[:60]
	}
	return kit.Hex(b)
}

// C01: encode/decode round trip of every kind.
func TestC01(t *testing.T) {
	kit.Check(t, 5000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		k := kit.GenKind(rt)
		o := k.Gen(g)
		want := k.Ref(o)
		b, err := kit.Encode(g.E, o)
		kit.NoErr(rt, err, "%s: encoding a valid object", k.Name)
		if !bytes.Equal(k.Ref(o), want) {
			kit.Fail(rt, "%s: encoding modified the object", k.Name)
		}
		var id string
		if k.ID != nil {
			id, err = k.ID(o)
			kit.NoErr(rt, err, "%s: identity", k.Name)
		}
		junk := g.Var(0, 3, "junk")
		buf := append(append([]byte{}, b...), junk...)
		d, n, err := k.Decode(g.E, buf)
		kit.NoErr(rt, err, "%s: decoding its own encoding %x", k.Name, b)
		if n != len(b) {
			kit.Fail(rt, "%s: consumed %d of %d", k.Name, n, len(b))
		}
		if got := k.Ref(d); !bytes.Equal(got, want) {
			kit.Fail(rt, "%s: round trip changed the object\n was %x\n now %x", k.Name, want, got)
		}
		b2, err := kit.Encode(g.E, d)
		kit.NoErr(rt, err, "%s: re-encoding", k.Name)
		if !bytes.Equal(b, b2) {
			kit.Fail(rt, "%s: re-encoding differs\n %x\n %x", k.Name, b, b2)
		}
		// a decoded object owns its memory, and so does its encoding
		for i := range buf {
			buf[i] ^= 0xa5
		}
		for i := range b2 {
			b2[i] ^= 0xa5
		}
		if got := k.Ref(d); !bytes.Equal(got, want) {
			kit.Fail(rt, "%s: the object decoded from %x changed with the buffer it was decoded from or encoded to: %x", k.Name, want, got)
		}
		if k.ID != nil {
			id2, err := k.ID(d)
			kit.NoErr(rt, err, "%s: identity of decoded", k.Name)
			if id != id2 {
				kit.Fail(rt, "%s: identity changed %q -> %q", k.Name, id, id2)
			}
		}
		c.Label(k.Name)
		c.NonTrivial(k.Name, b)
		c.Sample("%s %s (%d bytes)", k.Name, hexs(b), len(b))
	})
}

// C01: the entry points for bytes parse the encoding, say how much they read, and keep nothing of the caller's buffer.
func TestC01_FromBytes(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		prov := iotago.SingleVersionProvider(g.E.API())
		var enc []byte
		var parse func(b []byte) (any, int, error)
		name := ""
		switch g.Int(0, 8, "what") {
		case 0:
			name, enc = "Block", kit.EncBlock(g.Block())
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.BlockFromBytes(prov)(b)) }
		case 1:
			name, enc = "Attestation", kit.EncAttestation(kit.Attest(g.E, g.Block()))
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.AttestationFromBytes(prov)(b)) }
		case 2:
			name, enc = "ProtocolParameters", kit.EncParams(g.Params().Params())
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.ProtocolParametersFromBytes(b)) }
		case 3:
			tx := g.Tx(kit.TxOpt{}).Transaction
			p, err := iotago.OutputIDProofFromTransaction(tx, uint16(g.Int(0, len(tx.Outputs)-1, "oi")))
			kit.NoErr(rt, err, "proof")
			enc, err = p.Bytes()
			kit.NoErr(rt, err, "proof bytes")
			name = "OutputIDProof"
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.OutputIDProofFromBytes(g.E.API())(b)) }
		case 4, 5:
			name, enc = "Address", kit.EncAddr(g.Addr(kit.KAll, "a"))
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.AddressFromBytes(b)) }
		case 6:
			name, enc = "MultiAddressReference", append([]byte{40}, g.Bytes(32, "id")...)
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.MultiAddressReferenceFromBytes(b)) }
		case 7:
			name, enc = "BlockIssuerKey", append([]byte{0}, g.Bytes(32, "hash")...)
			parse = func(b []byte) (any, int, error) { return sl3a(iotago.BlockIssuerKeyFromBytes(b)) }
		case 8:
			m := kit.CapsMask(uint16(g.Int(0, 511, "caps")))
			enc = append([]byte{byte(len(m))}, m...)
			if name = "AddressCapabilitiesBitMask"; g.Bool("of a transaction") {
				name = "TransactionCapabilitiesBitMask"
				m = kit.CapsMask(uint16(g.Int(0, 63, "tcaps")))
				enc = append([]byte{byte(len(m))}, m...)
				parse = func(b []byte) (any, int, error) { return sl3a(iotago.TransactionCapabilitiesBitMaskFromBytes(b)) }
			} else {
				parse = func(b []byte) (any, int, error) { return sl3a(iotago.AddressCapabilitiesBitMaskFromBytes(b)) }
			}
		}
		form := func(x any) []byte {
			switch x := x.(type) {
			case *iotago.Block:
				return kit.EncBlock(x)
			case *iotago.Attestation:
				return kit.EncAttestation(x)
			case iotago.ProtocolParameters:
				return kit.EncParams(x)
			case *iotago.OutputIDProof:
				b, err := x.Bytes()
				kit.NoErr(rt, err, "proof bytes")
				return b
			case *iotago.MultiAddressReference:
				return append([]byte{}, x.MultiAddressID...)
			case iotago.Address:
				return kit.EncAddr(x)
			case *iotago.Ed25519PublicKeyHashBlockIssuerKey:
				return append([]byte{0}, x.PublicKeyHash[:]...)
			case iotago.AddressCapabilitiesBitMask:
				return append([]byte{byte(len(x))}, x...)
			case iotago.TransactionCapabilitiesBitMask:
				return append([]byte{byte(len(x))}, x...)
			}
			kit.Harness(rt, "form of %T", x)
			return nil
		}
		buf := append(append([]byte{}, enc...), g.Var(0, 3, "junk")...)
		x, n, err := parse(buf)
		kit.NoErr(rt, err, "%sFromBytes(%x)", name, enc)
		if n != len(enc) {
			kit.Fail(rt, "%sFromBytes read %d of %d bytes", name, n, len(enc))
		}
		if got := form(x); !bytes.Equal(got, enc) {
			kit.Fail(rt, "%sFromBytes(%x) is %x", name, enc, got)
		}
		for i := range buf {
			buf[i] ^= 0xa5
		}
		if got := form(x); !bytes.Equal(got, enc) {
			kit.Fail(rt, "%sFromBytes(%x) changed with the caller's buffer: %x", name, enc, got)
		}
		if name == "Address" {
			readers01(g, enc)
		}
		c.Label(name)
		c.NonTrivial(name, enc)
		c.Sample("%s %s", name, hexs(enc))
	})
}

// readers01: reading an address from a stream gives the address and takes exactly its bytes.
func readers01(g *kit.G, enc []byte) {
	rt := g.T
	rd := bytes.NewReader(append(append([]byte{}, enc...), 0xaa, 0xbb, 0xcc))
	one := func(name string, f func() (iotago.Address, error)) {
		_, err := rd.Seek(0, io.SeekStart)
		kit.NoErr(rt, err, "seek")
		a, err := f()
		kit.NoErr(rt, err, "%s(%x)", name, enc)
		if got := kit.EncAddr(a); !bytes.Equal(got, enc) {
			kit.Fail(rt, "%s(%x) is %x", name, enc, got)
		}
		if rd.Len() != 3 {
			kit.Fail(rt, "%s(%x) left %d bytes", name, enc, rd.Len())
		}
	}
	one("AddressFromReader", func() (iotago.Address, error) { return iotago.AddressFromReader(rd) })
	switch enc[0] {
	case 0:
		one("Ed25519AddressFromReader", func() (iotago.Address, error) { return iotago.Ed25519AddressFromReader(rd) })
	case 8:
		one("AccountAddressFromReader", func() (iotago.Address, error) { return iotago.AccountAddressFromReader(rd) })
	case 16:
		one("NFTAddressFromReader", func() (iotago.Address, error) { return iotago.NFTAddressFromReader(rd) })
	case 24:
		one("AnchorAddressFromReader", func() (iotago.Address, error) { return iotago.AnchorAddressFromReader(rd) })
	case 32:
		one("ImplicitAccountCreationAddressFromReader", func() (iotago.Address, error) { return iotago.ImplicitAccountCreationAddressFromReader(rd) })
	case 40:
		one("MultiAddressFromReader", func() (iotago.Address, error) { return iotago.MultiAddressFromReader(rd) })
	case 48:
		one("RestrictedAddressFromReader", func() (iotago.Address, error) { return iotago.RestrictedAddressFromReader(rd) })
	}
	// what is cut off is not an address
	cut := bytes.NewReader(enc[:g.Int(0, len(enc)-1, "cut")])
	if a, err := iotago.AddressFromReader(cut); err == nil {
		kit.Fail(rt, "AddressFromReader takes a part of %x for %x", enc, kit.EncAddr(a))
	}
}

func sl3a[T any](v T, n int, err error) (any, int, error) { return v, n, err }

// C05: layout equals the reference layout and sizes agree.
func TestC05(t *testing.T) {
	kit.Check(t, 5000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		k := kit.GenKind(rt)
		o := k.Gen(g)
		want := k.Ref(o)
		b, err := kit.Encode(g.E, o)
		kit.NoErr(rt, err, "%s: encoding a valid object", k.Name)
		if !bytes.Equal(b, want) {
			kit.Fail(rt, "%s: layout differs from the specification\n got  %x\n want %x", k.Name, b, want)
		}
		if k.Size != nil {
			if s := k.Size(o); s != len(b) {
				kit.Fail(rt, "%s: reports size %d but encodes to %d bytes", k.Name, s, len(b))
			}
		}
		// and they follow the object when it is altered in place
		if ls := kit.Leaves(o); len(ls) > 0 && g.Rare(3, "alter") {
			l := ls[g.Int(0, len(ls)-1, "leaf")]
			l.Do(g.U64("k"))
			var b2 []byte
			if p := kit.Panics(func() { b2, err = kit.Encode(g.E, o); want = k.Ref(o) }); p == nil && err == nil {
				if !bytes.Equal(b2, want) {
					kit.Fail(rt, "%s: layout after changing %s in place differs from the specification\n got  %x\n want %x", k.Name, l.Path, b2, want)
				}
				if k.Size != nil {
					if s := k.Size(o); s != len(b2) {
						kit.Fail(rt, "%s: after changing %s in place reports size %d but encodes to %d bytes", k.Name, l.Path, s, len(b2))
					}
				}
				c.Label("altered in place")
			}
		}
		c.Label(k.Name)
		c.NonTrivial(k.Name, b)
		c.Sample("%s %s (%d bytes)", k.Name, hexs(b), len(b))
	})
}
