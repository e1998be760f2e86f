package t_codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/bech32"
	"github.com/iotaledger/iota.go/v4/hexutil"
	"github.com/iotaledger/iota.go/v4/merklehasher"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// calm runs f and fails if it panics or does not come back.
func calm(rt *rapid.T, what string, in []byte, f func() error) (err error) {
	done := make(chan any, 1)
	go func() {
		defer func() {
			p := recover()
			if p != nil {
				buf := make([]byte, 3000)
				p = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
			}
			done <- p
		}()
		err = f()
	}()
	select {
	case p := <-done:
		if p != nil {
			kit.Fail(rt, "%s panicked on %x (%q): %v", what, in, cut(string(in)), p)
		}
	case <-time.After(120 * time.Second):
		kit.Fail(rt, "%s hangs on %x", what, in)
	}
	return err
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:600]
	}
	return s
}

func note(c *kit.Case, what string, in []byte, err error) {
	if err != nil {
		c.Label(what + ": rejected")
	} else {
		c.Label(what + ": accepted")
	}
	c.NonTrivial(what, in)
	c.Sample("%s <- %x: %v", what, in, err != nil)
}

// C04: binary decoding of damaged objects.
func TestC04_Binary(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		k := kit.GenKind(rt)
		var in []byte
		if g.Rare(6, "junk") {
			in = g.Var(0, 300, "junk")
		} else {
			in, _ = g.MutateBytes(k.Ref(k.Gen(g)))
		}
		if kit.GiantLength(k.Name, in) || len(in) > 1<<18 {
			c.Label("skipped: giant length prefix")
			return
		}
		var opts []serix.Option
		if g.Bool("val") {
			opts = append(opts, serix.WithValidation())
		}
		err := calm(rt, "decoding "+k.Name, in, func() error {
			_, err := g.E.API().Decode(in, k.New(), opts...)
			return err
		})
		note(c, k.Name, in, err)
	})
}

// C04: typed entry points for bytes.
func TestC04_BytesEntryPoints(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		prov := iotago.SingleVersionProvider(g.E.API())
		base := func() []byte {
			switch g.Int(0, 5, "base") {
			case 0:
				return kit.EncBlock(g.Block())
			case 1:
				return kit.EncAttestation(kit.Attest(g.E, g.Block()))
			case 2:
				return kit.EncParams(g.Params().Params())
			case 3:
				tx := g.Tx(kit.TxOpt{}).Transaction
				p, err := iotago.OutputIDProofFromTransaction(tx, uint16(g.Int(0, len(tx.Outputs)-1, "oi")))
				kit.NoErr(rt, err, "proof")
				b, err := p.Bytes()
				kit.NoErr(rt, err, "proof bytes")
				return b
			case 4:
				return kit.EncAddr(g.Addr(kit.KAll, "a"))
			}
			if b := kit.EncBlock(g.Block()); g.Bool("prefix") {
				return b[:g.Int(0, min(len(b), 400), "cut")]
			}
			return g.Var(0, 400, "b")
		}
		in := base()
		if !g.Rare(4, "asis") {
			in, _ = g.MutateBytes(in)
		}
		if kit.GiantLength("block", in) {
			c.Label("skipped: giant length prefix")
			return
		}
		rd := func() *bytes.Reader { return bytes.NewReader(in) }
		fns := []struct {
			n string
			f func() error
		}{
			{"BlockIdentifierFromBlockBytes", func() error { _, err := iotago.BlockIdentifierFromBlockBytes(in); return err }},
			{"BlockFromBytes", func() error { _, _, err := iotago.BlockFromBytes(prov)(in); return err }},
			{"AttestationFromBytes", func() error { _, _, err := iotago.AttestationFromBytes(prov)(in); return err }},
			{"ProtocolParametersFromBytes", func() error { _, _, err := iotago.ProtocolParametersFromBytes(in); return err }},
			{"OutputIDProofFromBytes", func() error {
				p, _, err := iotago.OutputIDProofFromBytes(g.E.API())(in)
				if err == nil { // an accepted proof can be evaluated
					o := g.Output(kit.OBasic, "o")
					if _, err := p.OutputID(o.(iotago.TxEssenceOutput)); err == nil {
						return fmt.Errorf("evaluated")
					}
				}
				return err
			}},
			{"ProofFromBytes", func() error {
				p, _, err := merklehasher.ProofFromBytes[*iotago.APIByter[iotago.TxEssenceOutput]](in)
				_ = p
				return err
			}},
			{"AddressFromReader", func() error { _, err := iotago.AddressFromReader(rd()); return err }},
			{"AddressFromBytes", func() error { _, _, err := iotago.AddressFromBytes(in); return err }},
			{"MultiAddressFromReader", func() error { _, err := iotago.MultiAddressFromReader(rd()); return err }},
			{"RestrictedAddressFromReader", func() error { _, err := iotago.RestrictedAddressFromReader(rd()); return err }},
			{"Ed25519AddressFromReader", func() error { _, err := iotago.Ed25519AddressFromReader(rd()); return err }},
			{"AccountAddressFromReader", func() error { _, err := iotago.AccountAddressFromReader(rd()); return err }},
			{"AnchorAddressFromReader", func() error { _, err := iotago.AnchorAddressFromReader(rd()); return err }},
			{"NFTAddressFromReader", func() error { _, err := iotago.NFTAddressFromReader(rd()); return err }},
			{"ImplicitAccountCreationAddressFromReader", func() error { _, err := iotago.ImplicitAccountCreationAddressFromReader(rd()); return err }},
			{"MultiAddressReferenceFromBytes", func() error { _, _, err := iotago.MultiAddressReferenceFromBytes(in); return err }},
			{"BlockIssuerKeyFromBytes", func() error { _, _, err := iotago.BlockIssuerKeyFromBytes(in); return err }},
			{"BlockIssuerKeyFromReader", func() error { _, err := iotago.BlockIssuerKeyFromReader(rd()); return err }},
			{"BlockIssuerKeysFromReader", func() error { _, err := iotago.BlockIssuerKeysFromReader(rd()); return err }},
			{"Ed25519PublicKeyHashBlockIssuerKeyFromBytes", func() error { _, _, err := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromBytes(in); return err }},
			{"AddressCapabilitiesBitMaskFromBytes", func() error { _, _, err := iotago.AddressCapabilitiesBitMaskFromBytes(in); return err }},
			{"TransactionCapabilitiesBitMaskFromBytes", func() error { _, _, err := iotago.TransactionCapabilitiesBitMaskFromBytes(in); return err }},
			{"Ed25519Signature.Decode", func() error { _, err := new(iotago.Ed25519Signature).Decode(in); return err }},
			{"TransactionStateFromBytes", func() error { _, _, err := api.TransactionStateFromBytes(in); return err }},
			{"TransactionFailureReasonFromBytes", func() error { _, _, err := api.TransactionFailureReasonFromBytes(in); return err }},
			{"VersionFromBytes", func() error { _, _, err := iotago.VersionFromBytes(in); return err }},
		}
		f := fns[g.Int(0, len(fns)-1, "fn")]
		note(c, f.n, in, calm(rt, f.n, in, f.f))
	})
}

// C04: JSON decoding of damaged documents.
func TestC04_JSON(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		var doc []byte
		var obj any
		var name string
		switch g.Int(0, 4, "src") {
		case 0, 1, 2:
			k := kit.GenKind(rt)
			doc, obj, name = kit.JText(kit.RefJSON(k.Gen(g))), k.New(), k.Name
		case 3:
			mk := kit.Responses[g.Int(0, len(kit.Responses)-1, "resp")]
			o := mk()
			g.Fill(reflect.ValueOf(o).Elem(), "f")
			doc, obj, name = kit.JText(kit.RefResponse(reflect.ValueOf(o))), mk(), reflect.TypeOf(o).Elem().Name()
		case 4:
			tx := g.Tx(kit.TxOpt{}).Transaction
			i := g.Int(0, len(tx.Outputs)-1, "oi")
			p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
			kit.NoErr(rt, err, "proof")
			j, err := g.E.API().JSONEncode(&api.OutputResponse{Output: tx.Outputs[i], OutputIDProof: p})
			kit.NoErr(rt, err, "OutputResponse")
			doc, obj, name = j, new(api.OutputResponse), "OutputResponse"
		}
		in, _ := g.MutateJSON(doc)
		var opts []serix.Option
		if g.Bool("val") {
			opts = append(opts, serix.WithValidation())
		}
		err := calm(rt, "JSON decoding of "+name, in, func() error { return g.E.API().JSONDecode(in, obj, opts...) })
		if r, ok := obj.(*api.OutputResponse); ok && err == nil && r.Output != nil && r.OutputIDProof != nil {
			calm(rt, "evaluating an accepted output ID proof", in, func() error { _, err := r.OutputIDProof.OutputID(r.Output); return err })
		}
		note(c, name, in, err)
	})
}

// idKind is an identifier type with its parsers.
type idKind struct {
	name  string
	n     int
	hex   func(string) ([]byte, error)
	text  func([]byte) ([]byte, error)
	bytes func([]byte) ([]byte, int, error)
}

func sl[T any](v T, err error) ([]byte, error) {
	return reflectBytes(reflect.ValueOf(v)), err
}

func sl3[T any](v T, n int, err error) ([]byte, int, error) {
	return reflectBytes(reflect.ValueOf(v)), n, err
}

func reflectBytes(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	reflect.Copy(reflect.ValueOf(b), v)
	return b
}

func un[T any](u interface{ UnmarshalText([]byte) error }, v *T, s []byte) ([]byte, error) {
	err := u.UnmarshalText(s)
	return reflectBytes(reflect.ValueOf(v).Elem()), err
}

var ids = []idKind{
	{"Identifier", 32, func(s string) ([]byte, error) { return sl(iotago.IdentifierFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.Identifier); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.IdentifierFromBytes(b)) }},
	{"AccountID", 32, func(s string) ([]byte, error) { return sl(iotago.AccountIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.AccountID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.AccountIDFromBytes(b)) }},
	{"AnchorID", 32, func(s string) ([]byte, error) { return sl(iotago.AnchorIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.AnchorID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.AnchorIDFromBytes(b)) }},
	{"BlockID", 36, func(s string) ([]byte, error) { return sl(iotago.BlockIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.BlockID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.BlockIDFromBytes(b)) }},
	{"CommitmentID", 36, func(s string) ([]byte, error) { return sl(iotago.CommitmentIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.CommitmentID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.CommitmentIDFromBytes(b)) }},
	{"TransactionID", 36, func(s string) ([]byte, error) { return sl(iotago.TransactionIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.TransactionID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.TransactionIDFromBytes(b)) }},
	{"SignedTransactionID", 36, func(s string) ([]byte, error) { return sl(iotago.SignedTransactionIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.SignedTransactionID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.SignedTransactionIDFromBytes(b)) }},
	{"OutputID", 38, func(s string) ([]byte, error) { return sl(iotago.OutputIDFromHexString(s)) }, func(s []byte) ([]byte, error) { v := new(iotago.OutputID); return un(v, v, s) }, func(b []byte) ([]byte, int, error) { return sl3(iotago.OutputIDFromBytes(b)) }},
	{"SlotIndex", 4, nil, nil, func(b []byte) ([]byte, int, error) {
		v, n, err := iotago.SlotIndexFromBytes(b)
		return binary.LittleEndian.AppendUint32(nil, uint32(v)), n, err
	}},
	{"EpochIndex", 4, nil, nil, func(b []byte) ([]byte, int, error) {
		v, n, err := iotago.EpochIndexFromBytes(b)
		return binary.LittleEndian.AppendUint32(nil, uint32(v)), n, err
	}},
	{"ImplicitAccountCreationAddress", 32, func(s string) ([]byte, error) {
		a, err := iotago.ParseImplicitAccountCreationAddressFromHexString(s)
		if err != nil {
			return nil, err
		}
		return a[:], nil
	}, nil, nil},
}

// refHex decodes 0x-prefixed hex (nil if it is not).
func refHex(s string) ([]byte, bool) {
	if len(s) < 2 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X') || len(s)%2 != 0 {
		return nil, false
	}
	r := []byte{}
	for i := 2; i < len(s); i += 2 {
		a, b := strings.IndexByte("0123456789abcdef", lower(s[i])), strings.IndexByte("0123456789abcdef", lower(s[i+1]))
		if a < 0 || b < 0 {
			return nil, false
		}
		r = append(r, byte(a<<4|b))
	}
	return r, true
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// C04: identifiers from text and bytes: value or error, and only the exact length.
func TestC04_Identifiers(t *testing.T) {
	kit.Check(t, 6000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		k := ids[g.Int(0, len(ids)-1, "id")]
		n := k.n
		if g.Bool("len") {
			n = g.Int(0, 45, "n")
		}
		raw := g.Bytes(n, "raw")
		mode := g.Int(0, 2, "mode")
		if mode == 2 || k.hex == nil {
			if k.bytes == nil {
				return
			}
			var v []byte
			var used int
			err := calm(rt, k.name+"FromBytes", raw, func() (err error) { v, used, err = k.bytes(raw); return })
			if (err == nil) != (len(raw) >= k.n) {
				kit.Fail(rt, "%sFromBytes on %d bytes: error %v", k.name, len(raw), err)
			}
			if err == nil && (used != k.n || !bytes.Equal(v, raw[:k.n])) {
				kit.Fail(rt, "%sFromBytes(%x) = %x, consumed %d", k.name, raw, v, used)
			}
			note(c, k.name+"FromBytes", raw, err)
			return
		}
		pfx := "0x" // UnmarshalText is the inverse of MarshalText, which writes no prefix
		if mode == 1 && k.text != nil {
			pfx = ""
		}
		s := pfx + kit.Hex(raw)
		if g.Bool("damage") {
			b, _ := g.MutateBytes([]byte(s))
			s = string(b)
		}
		f, name := k.hex, k.name+" from hex"
		if mode == 1 && k.text != nil {
			f, name = func(s string) ([]byte, error) { return k.text([]byte(s)) }, k.name+".UnmarshalText"
		}
		var v []byte
		err := calm(rt, name, []byte(s), func() (err error) { v, err = f(s); return })
		want, ok := refHex(s)
		if pfx == "" {
			want, ok = refHex("0x" + s)
		}
		if err == nil {
			if !ok || len(want) != k.n || !bytes.Equal(want, v) {
				kit.Fail(rt, "%s(%q) accepted as %x", name, s, v)
			}
		} else if ok && len(want) == k.n && (pfx == "" || s[1] == 'x') {
			kit.Fail(rt, "%s(%q) rejected: %v", name, s, err)
		}
		note(c, name, []byte(s), err)
	})
}

// C04: other text parsers.
func TestC04_Text(t *testing.T) {
	kit.Check(t, 6000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		var s string
		asis := false
		switch g.Int(0, 6, "src") {
		case 0:
			s = g.Addr(kit.KAll, "a").Bech32(iotago.NetworkPrefix(g.E.HRP))
		case 1:
			s = hexutil.EncodeUint256(g.U256("n"))
		case 2:
			s = hexutil.EncodeUint64(g.U64("n"))
		case 3:
			id := g.OutputID("o")
			s = id.ToHex()
		case 4:
			s = g.Text("t")
		case 5:
			// valid checksum around arbitrary payload
			var err error
			b := g.Var(0, 45, "payload")
			if len(b) > 0 && g.Bool("kind") { // an address type with about as much data as it takes
				asis = !g.Rare(4, "mutated")
				b[0] = []byte{0, 8, 16, 24, 32, 40, 48, 40, 48}[g.Int(0, 8, "type")]
				if b[0] == 48 && len(b) > 1 && g.Bool("inner") {
					b[1] = []byte{0, 8, 16, 24, 32, 40, 48, 40}[g.Int(0, 7, "inner type")]
				}
				if n := g.Int(31, 38, "len"); n <= len(b) {
					b = b[:n]
				} else {
					b = append(b, kit.Expand(g.U64("more"), n-len(b))...)
				}
			}
			s, err = bech32.Encode("iota", b)
			kit.NoErr(rt, err, "bech32.Encode")
		case 6:
			s = "0x" + kit.Hex(g.Var(0, 50, "h"))
		}
		if !asis && !g.Rare(3, "asis") {
			b, _ := g.MutateBytes([]byte(s))
			s = string(b)
		}
		fns := []struct {
			n string
			f func() error
		}{
			{"ParseBech32", func() error {
				_, a, err := iotago.ParseBech32(s)
				if err == nil {
					_ = a.String()
					_ = a.Bech32("iota")
					_ = a.Key()
				}
				return err
			}},
			{"bech32.Decode", func() error { _, _, err := bech32.Decode(s); return err }},
			{"DecodeHex", func() error {
				b, err := hexutil.DecodeHex(s)
				if w, ok := refHex(s); err == nil && s != "" && (!ok || !bytes.Equal(b, w)) {
					kit.Fail(rt, "DecodeHex(%q)=%x", s, b)
				}
				return err
			}},
			{"DecodeUint256", func() error {
				v, err := hexutil.DecodeUint256(s)
				if err == nil && (v == nil || v.Sign() < 0 || v.BitLen() > 256) {
					kit.Fail(rt, "DecodeUint256(%q)=%v", s, v)
				}
				return err
			}},
			{"DecodeUint64", func() error { _, err := hexutil.DecodeUint64(s); return err }},
			{"HexOutputIDs", func() error {
				v, err := iotago.HexOutputIDs{iotago.HexOutputID(s)}.OutputIDs()
				if err == nil && len(v) != 1 {
					kit.Fail(rt, "HexOutputIDs(%q)=%v", s, v)
				}
				return err
			}},
			{"OutputIDHex.SplitParts", func() error { _, _, err := iotago.OutputIDHex(s).SplitParts(); return err }},
			{"OutputIDHex.AsUTXOInput", func() error { _, err := iotago.OutputIDHex(s).AsUTXOInput(); return err }},
			{"BlockState.DecodeJSON", func() error {
				var b api.BlockState
				for _, v := range []any{nil, 7, s, []any{}} {
					if err := b.DecodeJSON(v); err == nil && b.String() != v {
						kit.Fail(rt, "BlockState %v", v)
					}
				}
				return nil
			}},
			{"TransactionState.DecodeJSON", func() error {
				var b api.TransactionState
				for _, v := range []any{nil, 7, s, []any{}} {
					if err := b.DecodeJSON(v); err == nil && b.String() != v {
						kit.Fail(rt, "TransactionState %v", v)
					}
				}
				return nil
			}},
			{"ProofFromJSON", func() error {
				_, err := merklehasher.ProofFromJSON[*iotago.APIByter[iotago.TxEssenceOutput]]([]byte(s))
				return err
			}},
		}
		f := fns[g.Int(0, len(fns)-1, "fn")]
		note(c, f.n, []byte(s), calm(rt, f.n, []byte(s), f.f))
	})
}

// C04: nesting of recursive types, in binary and JSON, up to depth 60 (deeper: see TestC04_Findings).
func TestC04_Nesting(t *testing.T) {
	kit.Check(t, 400, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		d := g.Int(1, 60, "depth")
		rep := func(pre, mid, post string) []byte {
			return []byte(strings.Repeat(pre, d) + mid + strings.Repeat(post, d))
		}
		tail := string(g.Var(0, 70, "tail"))
		var in []byte
		var f func() error
		name := ""
		dec := func(p any) func() error {
			return func() error { _, err := g.E.API().Decode(in, p, serix.WithValidation()); return err }
		}
		jdec := func(p any) func() error {
			return func() error { return g.E.API().JSONDecode(in, p, serix.WithValidation()) }
		}
		switch g.Int(0, 9, "shape") {
		case 0:
			name, in, f = "multi unlock", rep("\x05\x02", tail, ""), dec(new(iotago.Unlock))
		case 1:
			name, in, f = "multi unlock, complete", rep("\x05\x02\x06", "\x06", ""), dec(new(iotago.Unlock))
		case 2:
			name, in, f = "restricted address", rep("\x30", tail, ""), dec(new(iotago.Address))
		case 3:
			name, in, f = "restricted address, complete", rep("\x30", "\x00"+string(g.Bytes(32, "b")), "\x00"), dec(new(iotago.Address))
		case 4:
			name, in, f = "multi address", rep("\x28\x02", tail, ""), dec(new(iotago.Address))
		case 5:
			name, in, f = "JSON multi unlock", rep(`{"type":5,"unlocks":[`, `{"type":6}`, `,{"type":6}]}`), jdec(new(iotago.Unlock))
		case 6:
			name, in, f = "JSON restricted address", rep(`{"type":48,"address":`, `{"type":0,"pubKeyHash":"0x`+strings.Repeat("11", 32)+`"}`, `}`), jdec(new(iotago.Address))
		case 7:
			name, in, f = "JSON multi address", rep(`{"type":40,"threshold":1,"addresses":[{"weight":1,"address":`, `{"type":0,"pubKeyHash":"0x`+strings.Repeat("11", 32)+`"}`, `}]}`), jdec(new(iotago.Address))
		case 8:
			name, in = "Merkle proof", rep("\x00\x01\x00", "\x02"+tail, "")
			f = func() error {
				p, _, err := merklehasher.ProofFromBytes[*iotago.APIByter[iotago.TxEssenceOutput]](in)
				_ = p
				return err
			}
		case 9:
			name, in, f = "AddressFromReader", rep("\x30\x28\x02", tail, ""), func() error { _, err := iotago.AddressFromReader(bytes.NewReader(in)); return err }
		}
		note(c, name, in, calm(rt, name, in, f))
	})
}

// allocated measures the bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// C04: inputs that make a decoder use memory out of proportion to their size end a process just like a crash.
func TestC04_Memory(t *testing.T) {
	kit.Once(t, func(c *kit.Case) {
		e := kit.Envs()[0]
		nest := func(n int) uint64 {
			return allocated(func() {
				var u iotago.Unlock
				_, _ = e.API().Decode(bytes.Repeat([]byte{5, 2}, n), &u, serix.WithValidation())
			})
		}
		nest(100)
		if x, y := nest(500), nest(1000); y > 30<<20 && y > 3*x {
			if !kit.IsKnown("C04", "nested-decoding-memory") {
				t.Fatalf("[violation] decoding n nested multi unlocks needs memory quadratic in n: %d bytes for 500, %d bytes for 1000", x, y)
			}
			kit.Reproduced("nested-decoding-memory")
		}
		in := []byte{0, 0, 0, 0, 0, 4} // tagged data announcing 64 MiB
		if x := allocated(func() {
			_, _ = e.API().Decode(in, new(iotago.TaggedData), serix.WithValidation())
		}); x > 32<<20 {
			if !kit.IsKnown("C04", "tagged-data-alloc") {
				t.Fatalf("[violation] decoding 6 bytes of tagged data allocates %d bytes", x)
			}
			kit.Reproduced("tagged-data-alloc")
		}
		c.NonTrivial("memory")
	})
}
