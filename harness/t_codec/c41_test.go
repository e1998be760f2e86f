package t_codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/hexutil"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

type textual interface {
	comparable
	MarshalText() ([]byte, error)
	ToHex() string
	Alias() string
	RegisterAlias(string)
	UnregisterAlias()
	Empty() bool
	Bytes() ([]byte, error)
	fmt.Stringer
}

type comparer[T any] interface {
	textual
	Compare(T) int
}

func textForms[T textual](rt *rapid.T, name string, g *kit.G, v T, raw []byte, fromHex func(string) (T, error), valid func([]byte) error, fromBytes func([]byte) (T, int, error), unmarshal func(*T, []byte) error) {
	hex := kit.Hex(raw)
	txt, err := v.MarshalText()
	if err != nil || string(txt) != hex {
		kit.Fail(rt, "%s %s: MarshalText = %q, %v", name, hex, txt, err)
	}
	var w T
	if err := unmarshal(&w, txt); err != nil || w != v {
		kit.Fail(rt, "%s: UnmarshalText(%q) = %v, %v", name, txt, w, err)
	}
	if v.ToHex() != "0x"+hex {
		kit.Fail(rt, "%s %s: ToHex = %q", name, hex, v.ToHex())
	}
	w, err = fromHex(v.ToHex())
	if err != nil || w != v {
		kit.Fail(rt, "%s: from hex %q = %v, %v", name, v.ToHex(), w, err)
	}
	b, err := v.Bytes()
	if err != nil || !bytes.Equal(b, raw) {
		kit.Fail(rt, "%s %s: Bytes = %x, %v", name, hex, b, err)
	}
	w, n, err := fromBytes(append(append([]byte{}, raw...), g.Var(0, 4, "tail")...))
	if err != nil || w != v || n != len(raw) {
		kit.Fail(rt, "%s: from bytes %x = %v, consumed %d, %v", name, raw, w, n, err)
	}
	l := g.Int(0, len(raw)+6, "len")
	buf := make([]byte, l)
	copy(buf, raw)
	if (valid(buf) == nil) != (l == len(raw)) {
		kit.Fail(rt, "%s: validity check of %d bytes gives %v", name, l, valid(buf))
	}
	if _, _, err := fromBytes(buf); (err == nil) != (l >= len(raw)) {
		kit.Fail(rt, "%s: from %d bytes gives %v", name, l, err)
	}
	if _, err := fromHex("0x" + kit.Hex(buf)); (err == nil) != (l == len(raw)) {
		kit.Fail(rt, "%s: from hex of %d bytes gives %v", name, l, err)
	}
	if err := unmarshal(new(T), []byte(kit.Hex(buf))); (err == nil) != (l == len(raw)) {
		kit.Fail(rt, "%s: from text of %d bytes gives %v", name, l, err)
	}
	if _, err := fromHex(hex); err == nil {
		kit.Fail(rt, "%s: from hex without prefix accepted", name)
	}
	empty := true
	for _, x := range raw {
		empty = empty && x == 0
	}
	if v.Empty() != empty {
		kit.Fail(rt, "%s %s: Empty = %v", name, hex, v.Empty())
	}
	// aliases only change the alias of this very identifier
	if v.Alias() != "0x"+hex {
		kit.Fail(rt, "%s %s: Alias = %q", name, hex, v.Alias())
	}
	v.RegisterAlias("nick")
	a := v.Alias()
	h := v.ToHex()
	v.UnregisterAlias()
	if a != "nick" || h != "0x"+hex || v.Alias() != "0x"+hex {
		kit.Fail(rt, "%s %s: alias %q, hex %q, after unregistering %q", name, hex, a, h, v.Alias())
	}
}

func setForms[T comparer[T], S ~[]T](rt *rapid.T, name string, g *kit.G, mk func(string) T, raw func(T) []byte, dedup func(S) S, srt func(S), toHex func(S) []string, fromHex func([]string) (S, error)) (l int) {
	n := g.Int(0, 12, "n")
	var s S
	for i := 0; i < n; i++ {
		if i > 0 && g.Bool("dup") {
			s = append(s, s[g.Int(0, i-1, "of")])
		} else {
			var x T
			if !g.Rare(6, "zero") {
				x = mk(fmt.Sprint(i))
			}
			s = append(s, x)
		}
	}
	orig := append(S{}, s...)
	model := map[string]bool{}
	var want, all []string
	for _, x := range s {
		all = append(all, string(raw(x)))
		if !model[string(raw(x))] {
			want = append(want, string(raw(x)))
		}
		model[string(raw(x))] = true
	}
	sort.Strings(want)
	sort.Strings(all)
	check := func(what string, got S, want []string) {
		if len(got) != len(want) {
			kit.Fail(rt, "%s.%s of %x gives %x", name, what, orig, got)
		}
		for i := range got {
			if string(raw(got[i])) != want[i] {
				kit.Fail(rt, "%s.%s of %x gives %x", name, what, orig, got)
			}
		}
	}
	d := dedup(s)
	check("RemoveDupsAndSort", d, want)
	for i := range s {
		if s[i] != orig[i] {
			kit.Fail(rt, "%s.RemoveDupsAndSort changed its receiver", name)
		}
	}
	check("RemoveDupsAndSort(RemoveDupsAndSort)", dedup(d), want)
	hx := toHex(s)
	back, err := fromHex(hx)
	kit.NoErr(rt, err, "%ssFromHexString", name)
	for i := range s {
		if hx[i] != s[i].ToHex() || back[i] != s[i] {
			kit.Fail(rt, "%s list %x to hex and back: %v %x", name, s, hx, back)
		}
	}
	if len(hx) != len(s) || len(back) != len(s) {
		kit.Fail(rt, "%s list %x to hex and back: %v %x", name, s, hx, back)
	}
	srt(s)
	check("Sort", s, all)
	for i := range s {
		for j := range s {
			c := bytes.Compare(raw(s[i]), raw(s[j]))
			if s[i].Compare(s[j]) != c {
				kit.Fail(rt, "%s.Compare(%x,%x) = %d", name, s[i], s[j], s[i].Compare(s[j]))
			}
		}
	}
	return n
}

// C41: text forms.
func TestC41_Text(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		h := g.B32("h")
		var s36 = [36]byte(g.BlockID("s"))
		oid := g.OutputID("o")
		if g.Rare(10, "zero") {
			h, s36, oid = [32]byte{}, [36]byte{}, iotago.OutputID{}
		}
		textForms(rt, "Identifier", g, iotago.Identifier(h), h[:], iotago.IdentifierFromHexString, iotago.IsValidIdentifier, iotago.IdentifierFromBytes, (*iotago.Identifier).UnmarshalText)
		textForms(rt, "AccountID", g, iotago.AccountID(h), h[:], iotago.AccountIDFromHexString, iotago.IsValidAccountID, iotago.AccountIDFromBytes, (*iotago.AccountID).UnmarshalText)
		textForms(rt, "AnchorID", g, iotago.AnchorID(h), h[:], iotago.AnchorIDFromHexString, iotago.IsValidAnchorID, iotago.AnchorIDFromBytes, (*iotago.AnchorID).UnmarshalText)
		textForms(rt, "BlockID", g, iotago.BlockID(s36), s36[:], iotago.BlockIDFromHexString, iotago.IsValidBlockID, iotago.BlockIDFromBytes, (*iotago.BlockID).UnmarshalText)
		textForms(rt, "CommitmentID", g, iotago.CommitmentID(s36), s36[:], iotago.CommitmentIDFromHexString, iotago.IsValidCommitmentID, iotago.CommitmentIDFromBytes, (*iotago.CommitmentID).UnmarshalText)
		textForms(rt, "TransactionID", g, iotago.TransactionID(s36), s36[:], iotago.TransactionIDFromHexString, iotago.IsValidTransactionID, iotago.TransactionIDFromBytes, (*iotago.TransactionID).UnmarshalText)
		textForms(rt, "SignedTransactionID", g, iotago.SignedTransactionID(s36), s36[:], iotago.SignedTransactionIDFromHexString, iotago.IsValidSignedTransactionID, iotago.SignedTransactionIDFromBytes, (*iotago.SignedTransactionID).UnmarshalText)
		textForms(rt, "OutputID", g, oid, oid[:], iotago.OutputIDFromHexString, iotago.IsValidOutputID, iotago.OutputIDFromBytes, (*iotago.OutputID).UnmarshalText)
		// hex output IDs
		tx, idx, err := iotago.OutputIDHex(kit.Hex(oid[:])).SplitParts()
		tx2, idx2, err2 := iotago.OutputIDHex(oid.ToHex()).SplitParts()
		if (err != nil || *tx != oid.TransactionID() || idx != oid.Index()) && (err2 != nil || *tx2 != oid.TransactionID() || idx2 != oid.Index()) {
			kit.Fail(rt, "OutputIDHex of %x does not split into its parts: %v / %v", oid, err, err2)
		}
		for _, h := range []iotago.OutputIDHex{iotago.OutputIDHex(kit.Hex(oid[:])), iotago.OutputIDHex(oid.ToHex())} {
			if _, _, err := h.SplitParts(); err != nil {
				continue
			}
			in, err := h.AsUTXOInput()
			tx, idx := h.MustSplitParts()
			if err != nil || in.OutputID() != oid || h.MustAsUTXOInput().OutputID() != oid || *tx != oid.TransactionID() || idx != oid.Index() || in.Index() != oid.Index() || in.CreationSlot() != oid.CreationSlot() || !in.Equals(oid.UTXOInput()) {
				kit.Fail(rt, "%s as an input: %v %v", h, in, err)
			}
		}
		if must := iotago.HexOutputIDsFromOutputIDs(oid).MustOutputIDs(); len(must) != 1 || must[0] != oid {
			kit.Fail(rt, "MustOutputIDs of %x: %x", oid, must)
		}
		ids, err := iotago.HexOutputIDsFromOutputIDs(oid, iotago.OutputID{}).OutputIDs()
		if err != nil || len(ids) != 2 || ids[0] != oid || ids[1] != (iotago.OutputID{}) {
			kit.Fail(rt, "HexOutputIDs of %x: %x, %v", oid, ids, err)
		}
		// indices
		u := g.U32("u")
		le := binary.LittleEndian.AppendUint32(nil, u)
		if b, err := iotago.SlotIndex(u).Bytes(); err != nil || !bytes.Equal(b, le) || !bytes.Equal(iotago.SlotIndex(u).MustBytes(), le) {
			kit.Fail(rt, "SlotIndex(%d).Bytes = %x %v", u, b, err)
		}
		if b, err := iotago.EpochIndex(u).Bytes(); err != nil || !bytes.Equal(b, le) || !bytes.Equal(iotago.EpochIndex(u).MustBytes(), le) {
			kit.Fail(rt, "EpochIndex(%d).Bytes = %x %v", u, b, err)
		}
		if v, n, err := iotago.SlotIndexFromBytes(append(le, 9)); err != nil || n != 4 || uint32(v) != u {
			kit.Fail(rt, "SlotIndexFromBytes(%x) = %d", le, v)
		}
		if v, n, err := iotago.EpochIndexFromBytes(append(le, 9)); err != nil || n != 4 || uint32(v) != u {
			kit.Fail(rt, "EpochIndexFromBytes(%x) = %d", le, v)
		}
		// numbers and byte strings
		q := g.U64("q")
		if s := hexutil.EncodeUint64(q); s != strconv.FormatUint(q, 10) {
			kit.Fail(rt, "EncodeUint64(%d) = %q", q, s)
		} else if v, err := hexutil.DecodeUint64(s); err != nil || v != q {
			kit.Fail(rt, "DecodeUint64(%q) = %d, %v", s, v, err)
		}
		big256 := g.U256("big")
		if s := hexutil.EncodeUint256(big256); s != "0x"+big256.Text(16) {
			kit.Fail(rt, "EncodeUint256(%s) = %q", big256, s)
		} else if v, err := hexutil.DecodeUint256(s); err != nil || v.Cmp(big256) != 0 {
			kit.Fail(rt, "DecodeUint256(%q) = %v, %v", s, v, err)
		}
		over := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 256), big256)
		if v, err := hexutil.DecodeUint256("0x" + over.Text(16)); err == nil {
			kit.Fail(rt, "DecodeUint256 accepts %s", v)
		}
		if s := "0x0" + big256.Text(16); true {
			if v, err := hexutil.DecodeUint256(s); err == nil {
				kit.Fail(rt, "DecodeUint256 accepts the padded form %q as %s", s, v)
			}
		}
		bs := g.Var(0, 40, "bs")
		s := hexutil.EncodeHex(bs)
		if want := "0x" + kit.Hex(bs); s != want && !(len(bs) == 0 && s == "") {
			kit.Fail(rt, "EncodeHex(%x) = %q", bs, s)
		}
		if b, err := hexutil.DecodeHex(s); err != nil || !bytes.Equal(b, bs) {
			kit.Fail(rt, "DecodeHex(%q) = %x, %v", s, b, err)
		}
		if len(bs) > 0 {
			for _, bad := range []string{s[2:], s[:len(s)-1], s + "g0", " " + s, s + "\n"} {
				if b, err := hexutil.DecodeHex(bad); err == nil {
					kit.Fail(rt, "DecodeHex accepts %q as %x", bad, b)
				}
			}
		}
		c.NonTrivial(h[:], s36[:], oid[:])
		c.Label("text")
		c.Sample("%x %x u64 %d u256 %s", h[:4], oid, q, big256)
	})
}

// C41: collections of identifiers and keys.
func TestC41_Sets(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		n := 0
		switch k := g.Int(0, 5, "kind"); k {
		case 0:
			n = setForms(rt, "BlockID", g, g.BlockID, func(x iotago.BlockID) []byte { return x[:] }, iotago.BlockIDs.RemoveDupsAndSort, iotago.BlockIDs.Sort, iotago.BlockIDs.ToHex, iotago.BlockIDsFromHexString)
		case 1:
			n = setForms(rt, "CommitmentID", g, g.CommitmentID, func(x iotago.CommitmentID) []byte { return x[:] }, iotago.CommitmentIDs.RemoveDupsAndSort, iotago.CommitmentIDs.Sort, iotago.CommitmentIDs.ToHex, iotago.CommitmentIDsFromHexString)
		case 2:
			n = setForms(rt, "TransactionID", g, g.TxID, func(x iotago.TransactionID) []byte { return x[:] }, iotago.TransactionIDs.RemoveDupsAndSort, iotago.TransactionIDs.Sort, iotago.TransactionIDs.ToHex, iotago.TransactionIDsFromHexString)
		case 3:
			n = setForms(rt, "SignedTransactionID", g, func(l string) iotago.SignedTransactionID { return iotago.SignedTransactionID(g.TxID(l)) }, func(x iotago.SignedTransactionID) []byte { return x[:] }, iotago.SignedTransactionIDs.RemoveDupsAndSort, iotago.SignedTransactionIDs.Sort, iotago.SignedTransactionIDs.ToHex, iotago.SignedTransactionIDsFromHexString)
		case 4:
			n = setForms(rt, "OutputID", g, g.OutputID, func(x iotago.OutputID) []byte { return x[:] }, iotago.OutputIDs.RemoveDupsAndSort, iotago.OutputIDs.Sort, iotago.OutputIDs.ToHex, iotago.OutputIDsFromHexString)
		case 5:
			// output ID list against an output set, and its inputs
			var ids iotago.OutputIDs
			set := iotago.OutputSet{}
			for n = 0; n < g.Int(0, 8, "n"); n++ {
				id := g.OutputID(fmt.Sprint(n))
				ids = append(ids, id)
				if g.Bool("in") {
					set[id] = g.RawOutput(kit.OBasic, "o")
				}
			}
			os, ins := ids.OrderedSet(set), ids.UTXOInputs()
			if len(os) != len(ids) || len(ins) != len(ids) {
				kit.Fail(rt, "OrderedSet/UTXOInputs of %d IDs: %d, %d", len(ids), len(os), len(ins))
			}
			for i, id := range ids {
				if os[i] != set[id] || ins[i].(*iotago.UTXOInput).OutputID() != id {
					kit.Fail(rt, "OrderedSet/UTXOInputs differ at %d", i)
				}
			}
		}
		c.Label("set")
		if n > 1 {
			c.NonTrivial(fmt.Sprint(g.Int(0, 1<<30, "case")))
		}
	})
}

// C41: block issuer keys: a sorted set under any history.
func TestC41_Keys(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		pool := make([]*iotago.Ed25519PublicKeyHashBlockIssuerKey, 6)
		for i := range pool {
			h := [32]byte{}
			if i > 0 {
				h = g.B32("k")
			}
			pool[i] = &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: h}
		}
		model := map[[32]byte]bool{}
		var ks iotago.BlockIssuerKeys
		if g.Bool("init") {
			var init []iotago.BlockIssuerKey
			seen := map[[32]byte]bool{}
			for _, i := range rapid.SliceOfN(rapid.IntRange(0, 5), 0, 6).Draw(rt, "init keys") {
				if !seen[pool[i].PublicKeyHash] {
					seen[pool[i].PublicKeyHash] = true
					init = append(init, pool[i])
					model[pool[i].PublicKeyHash] = true
				}
			}
			ks = iotago.NewBlockIssuerKeys(init...)
		}
		hist := ""
		ops := g.Int(1, 20, "ops")
		for o := 0; o <= ops; o++ {
			if o > 0 {
				k := pool[g.Int(0, 5, "key")]
				before := ks.Clone()
				enc := kitKeys(before)
				if g.Bool("add") {
					hist += "+" + kit.Hex(k.PublicKeyHash[:2])
					ks.Add(k)
					model[k.PublicKeyHash] = true
				} else {
					hist += "-" + kit.Hex(k.PublicKeyHash[:2])
					ks.Remove(k)
					delete(model, k.PublicKeyHash)
				}
				if !bytes.Equal(kitKeys(before), enc) {
					kit.Fail(rt, "changing a key set changed its clone (%s)", hist)
				}
			}
			var want []string
			for h := range model {
				want = append(want, string(h[:]))
			}
			sort.Strings(want)
			if len(want) != len(ks) {
				kit.Fail(rt, "key set %x after %s, expected %x", kitKeys(ks), hist, want)
			}
			for i, k := range ks {
				h := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
				if string(h[:]) != want[i] {
					kit.Fail(rt, "key set %x after %s, expected %x", kitKeys(ks), hist, want)
				}
			}
			for _, p := range pool {
				if ks.Has(p) != model[p.PublicKeyHash] {
					kit.Fail(rt, "key set %x after %s: Has(%x) = %v", kitKeys(ks), hist, p.PublicKeyHash, ks.Has(p))
				}
			}
			if !ks.Equal(ks.Clone()) || ks.Size() != len(kitKeys(ks)) {
				kit.Fail(rt, "key set %x: clone differs or size %d", kitKeys(ks), ks.Size())
			}
			if len(ks) > 0 {
				b, err := ks.Bytes()
				if err != nil || !bytes.Equal(b, kitKeys(ks)) {
					kit.Fail(rt, "key set bytes %x, expected %x (%v)", b, kitKeys(ks), err)
				}
				d, err := iotago.BlockIssuerKeysFromReader(bytes.NewReader(b))
				if err != nil || !d.Equal(ks) {
					kit.Fail(rt, "key set %x read back: %v", b, err)
				}
			}
		}
		for i, a := range pool {
			for j, b := range pool {
				w := bytes.Compare(a.PublicKeyHash[:], b.PublicKeyHash[:])
				if sign(a.Compare(b)) != w || a.Equal(b) != (w == 0) {
					kit.Fail(rt, "keys %d %d: Compare %d Equal %v", i, j, a.Compare(b), a.Equal(b))
				}
			}
		}
		c.NonTrivial(hist)
		c.Label("keys")
		c.Sample("%s", hist)
	})
}

func sign(i int) int {
	if i > 0 {
		return 1
	}
	if i < 0 {
		return -1
	}
	return 0
}

func kitKeys(ks iotago.BlockIssuerKeys) []byte {
	b := []byte{byte(len(ks))}
	for _, k := range ks {
		h := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
		b = append(append(b, 0), h[:]...)
	}
	return b
}

// C41: bit masks.
func TestC41_Masks(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		// generic mask against a set of bits
		model := map[uint]bool{}
		var bm []byte
		for i := 0; i < g.Int(0, 12, "n"); i++ {
			b := uint(g.Int(0, 70, "bit"))
			bm = iotago.BitMaskSetBit(bm, b)
			model[b] = true
		}
		for b := uint(0); b < 90; b++ {
			if iotago.BitMaskHasBit(bm, b) != model[b] {
				kit.Fail(rt, "mask %x with bits %v: bit %d reported %v", bm, model, b, !model[b])
			}
		}
		raw := g.Var(0, 5, "raw")
		zero := len(raw) > 0 && raw[len(raw)-1] == 0
		if err := iotago.BitMaskNonTrailingZeroBytesValidatorFunc(raw); (err != nil) != zero {
			kit.Fail(rt, "mask %x: trailing zero check gives %v", raw, err)
		}
		// address capabilities
		m := uint16(g.Int(0, 511, "addr caps"))
		ac := iotago.AddressCapabilitiesBitMaskWithCapabilities(
			iotago.WithAddressCanReceiveNativeTokens(m&1 > 0), iotago.WithAddressCanReceiveMana(m&2 > 0),
			iotago.WithAddressCanReceiveOutputsWithTimelockUnlockCondition(m&4 > 0), iotago.WithAddressCanReceiveOutputsWithExpirationUnlockCondition(m&8 > 0),
			iotago.WithAddressCanReceiveOutputsWithStorageDepositReturnUnlockCondition(m&16 > 0), iotago.WithAddressCanReceiveAccountOutputs(m&32 > 0),
			iotago.WithAddressCanReceiveAnchorOutputs(m&64 > 0), iotago.WithAddressCanReceiveNFTOutputs(m&128 > 0), iotago.WithAddressCanReceiveDelegationOutputs(m&256 > 0))
		if !bytes.Equal(ac, kit.CapsMask(m)) {
			kit.Fail(rt, "address capabilities %b encode to %x, expected %x", m, ac, kit.CapsMask(m))
		}
		for _, v := range []iotago.AddressCapabilitiesBitMask{ac, ac.Clone(), raw} {
			x := bits16(v)
			got := []bool{v.CannotReceiveNativeTokens(), v.CannotReceiveMana(), v.CannotReceiveOutputsWithTimelockUnlockCondition(), v.CannotReceiveOutputsWithExpirationUnlockCondition(), v.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition(), v.CannotReceiveAccountOutputs(), v.CannotReceiveAnchorOutputs(), v.CannotReceiveNFTOutputs(), v.CannotReceiveDelegationOutputs()}
			for i, cannot := range got {
				if cannot != (x&(1<<i) == 0) {
					kit.Fail(rt, "address capabilities %x: bit %d reported %v", v, i, !cannot)
				}
			}
			if v.Size() != len(v)+1 {
				kit.Fail(rt, "address capabilities %x: size %d", v, v.Size())
			}
		}
		if m == 511 || g.Rare(20, "all") {
			if any := iotago.AddressCapabilitiesBitMaskWithCapabilities(iotago.WithAddressCanReceiveAnything()); !bytes.Equal(any, kit.CapsMask(511)) {
				kit.Fail(rt, "WithAddressCanReceiveAnything = %x", any)
			}
			if any := iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDoAnything()); !bytes.Equal(any, []byte{63}) {
				kit.Fail(rt, "WithTransactionCanDoAnything = %x", any)
			}
		}
		enc := kit.Cat([]byte{byte(len(raw))}, raw)
		av, n, err := iotago.AddressCapabilitiesBitMaskFromBytes(append(enc, 1))
		if len(raw) <= 2 && !zero && err != nil || err == nil && (!bytes.Equal(av, raw) || n != len(enc)) {
			kit.Fail(rt, "AddressCapabilitiesBitMaskFromBytes(%x) = %x, %d, %v", enc, av, n, err)
		}
		// transaction capabilities
		q := byte(g.Int(0, 63, "tx caps"))
		tc := iotago.TransactionCapabilitiesBitMaskWithCapabilities(
			iotago.WithTransactionCanBurnNativeTokens(q&1 > 0), iotago.WithTransactionCanBurnMana(q&2 > 0), iotago.WithTransactionCanDestroyAccountOutputs(q&4 > 0),
			iotago.WithTransactionCanDestroyAnchorOutputs(q&8 > 0), iotago.WithTransactionCanDestroyFoundryOutputs(q&16 > 0), iotago.WithTransactionCanDestroyNFTOutputs(q&32 > 0))
		if q == 0 && len(tc) != 0 || q != 0 && !bytes.Equal(tc, []byte{q}) {
			kit.Fail(rt, "transaction capabilities %b encode to %x", q, tc)
		}
		for _, v := range []iotago.TransactionCapabilitiesBitMask{tc, tc.Clone(), raw} {
			x := bits16(v)
			got := []bool{v.CannotBurnNativeTokens(), v.CannotBurnMana(), v.CannotDestroyAccountOutputs(), v.CannotDestroyAnchorOutputs(), v.CannotDestroyFoundryOutputs(), v.CannotDestroyNFTOutputs()}
			for i, cannot := range got {
				if cannot != (x&(1<<i) == 0) {
					kit.Fail(rt, "transaction capabilities %x: bit %d reported %v", v, i, !cannot)
				}
			}
			if v.Size() != len(v)+1 {
				kit.Fail(rt, "transaction capabilities %x: size %d", v, v.Size())
			}
		}
		tv, n, err := iotago.TransactionCapabilitiesBitMaskFromBytes(kit.Cat([]byte{byte(len(tc))}, tc, []byte{7}))
		if err != nil || n != len(tc)+1 || !bytes.Equal(tv, tc) {
			kit.Fail(rt, "TransactionCapabilitiesBitMaskFromBytes(%x) = %x, %d, %v", tc, tv, n, err)
		}
		c.NonTrivial(raw, fmt.Sprint(m, q, len(model)))
		c.Label("masks")
		c.Sample("mask %x, address %b, transaction %b", bm, m, q)
	})
}

func bits16(b []byte) (x uint32) {
	for i := 0; i < len(b) && i < 4; i++ {
		x |= uint32(b[i]) << (8 * i)
	}
	return
}

func mustForm[T comparable](rt *rapid.T, name, in string, must func(string) T, from func(string) (T, error)) {
	want, err := from(in)
	var got T
	p := kit.Panics(func() { got = must(in) })
	if (err != nil) != (p != nil) || err == nil && got != want {
		kit.Fail(rt, "Must%sFromHexString(%q) = %v, panic %v; without Must %v, %v", name, in, got, p, want, err)
	}
}

// C41: the panicking parsers, identifiers of data, and histories of aliases over identifiers of several kinds.
func TestC41_Aliases(t *testing.T) {
	kit.Check(t, 3000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		raw := g.Bytes([]int{32, 36, 38, 31, 33, 35, 37, 39, 0}[g.Int(0, 8, "len")], "raw")
		in := "0x" + kit.Hex(raw)
		switch g.Int(0, 4, "form") {
		case 0:
			in = in[2:]
		case 1:
			if len(in) > 4 {
				in = in[:len(in)-1]
			}
		case 2:
			if len(in) > 4 {
				i := g.Int(2, len(in)-1, "i")
				in = in[:i] + "g" + in[i+1:]
			}
		}
		mustForm(rt, "Identifier", in, iotago.MustIdentifierFromHexString, iotago.IdentifierFromHexString)
		mustForm(rt, "AccountID", in, iotago.MustAccountIDFromHexString, iotago.AccountIDFromHexString)
		mustForm(rt, "AnchorID", in, iotago.MustAnchorIDFromHexString, iotago.AnchorIDFromHexString)
		mustForm(rt, "BlockID", in, iotago.MustBlockIDFromHexString, iotago.BlockIDFromHexString)
		mustForm(rt, "CommitmentID", in, iotago.MustCommitmentIDFromHexString, iotago.CommitmentIDFromHexString)
		mustForm(rt, "TransactionID", in, iotago.MustTransactionIDFromHexString, iotago.TransactionIDFromHexString)
		mustForm(rt, "SignedTransactionID", in, iotago.MustSignedTransactionIDFromHexString, iotago.SignedTransactionIDFromHexString)
		mustForm(rt, "OutputID", in, iotago.MustOutputIDFromHexString, iotago.OutputIDFromHexString)

		data := g.Var(0, 80, "data")
		h := kit.Blake(data)
		if iotago.AccountIDFromData(data) != iotago.AccountID(h) || iotago.AnchorIDFromData(data) != iotago.AnchorID(h) {
			kit.Fail(rt, "identifiers from data %x: %x %x", data, iotago.AccountIDFromData(data), iotago.AnchorIDFromData(data))
		}

		var pub [32]byte
		copy(pub[:], data)
		h = kit.Blake(pub[:])
		imp := iotago.ImplicitAccountCreationAddressFromPubKey(pub[:])
		if a := iotago.Ed25519AddressFromPubKey(pub[:]); [32]byte(*a) != h || [32]byte(*imp) != h {
			kit.Fail(rt, "addresses of key %x: %x and %x", pub, *a, *imp)
		}
		if k, l := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey(pub), iotago.Ed25519PublicKeyHashBlockIssuerKeyFromImplicitAccountCreationAddress(imp); k.PublicKeyHash != h || l.PublicKeyHash != h {
			kit.Fail(rt, "block issuer keys of key %x: %x and %x", pub, k.PublicKeyHash, l.PublicKeyHash)
		}
		mustForm(rt, "ImplicitAccountCreationAddress", in, func(s string) [32]byte {
			return [32]byte(*iotago.MustParseImplicitAccountCreationAddressFromHexString(s))
		},
			func(s string) ([32]byte, error) {
				if len(s) == 66 && s[:2] == "0x" {
					v, err := iotago.IdentifierFromHexString(s)
					return [32]byte(v), err
				}
				return [32]byte{}, fmt.Errorf("not 32 bytes")
			})

		// aliases: identifiers of different kinds with the same bytes have aliases of their own
		var ids []textual2
		kind := map[textual2]string{}
		for i := 0; i < 2; i++ {
			b := [32]byte{}
			copy(b[:], g.Bytes(32, fmt.Sprint("id", i)))
			var b36 [36]byte
			copy(b36[:], b[:])
			b36[35] = byte(i)
			var b38 [38]byte
			copy(b38[:], b36[:])
			for _, x := range []struct {
				k string
				v textual2
			}{{"I", iotago.Identifier(b)}, {"A", iotago.AccountID(b)}, {"X", iotago.AnchorID(b)}, {"B", iotago.BlockID(b36)}, {"C", iotago.CommitmentID(b36)}, {"T", iotago.TransactionID(b36)}, {"S", iotago.SignedTransactionID(b36)}, {"O", iotago.OutputID(b38)}} {
				if kind[x.v] == "" {
					ids = append(ids, x.v)
					kind[x.v] = x.k
				}
			}
		}
		model := map[textual2]string{}
		defer func() {
			for _, x := range ids {
				x.UnregisterAlias()
			}
		}()
		var hist []string
		for i, n := 0, g.Int(1, 12, "steps"); i < n; i++ {
			x := ids[g.Int(0, len(ids)-1, "id")]
			switch k := g.Int(0, 8, "op"); {
			case k <= 4:
				a := []string{"nick", "", "0x00", "name " + strconv.Itoa(i)}[g.Int(0, 3, "alias")]
				x.RegisterAlias(a)
				model[x] = a
				hist = append(hist, kind[x]+" = "+a)
			case k <= 6:
				x.UnregisterAlias()
				delete(model, x)
				hist = append(hist, kind[x]+" forgotten")
			default:
				k := []string{"I", "A", "X"}[g.Int(0, 2, "all")]
				switch k {
				case "I":
					iotago.UnregisterIdentifierAliases()
				case "A":
					iotago.UnregisterAccountIDAliases()
				case "X":
					iotago.UnregisterAnchorIDAliases()
				}
				for _, y := range ids {
					if kind[y] == k {
						delete(model, y)
					}
				}
				hist = append(hist, "all "+k+" forgotten")
			}
			for _, y := range ids {
				want, ok := model[y]
				if !ok {
					want = y.ToHex()
				}
				if y.Alias() != want {
					kit.Fail(rt, "after %q the alias of %s %s is %q, should be %q", hist, kind[y], y.ToHex(), y.Alias(), want)
				}
			}
		}
		c.NonTrivial(in, fmt.Sprint(hist))
		c.Sample("%q, %q", in, hist)
	})
}

type textual2 interface {
	ToHex() string
	Alias() string
	RegisterAlias(string)
	UnregisterAlias()
}
