package t_infra

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/iotaledger/iota-crypto-demo/pkg/bip39"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/wallet"
	"golang.org/x/crypto/pbkdf2"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// slip40 is SLIP-10 for ed25519: the private key of a hardened path below a seed.
func slip40(seed []byte, path []uint32) ed25519.PrivateKey {
	mac := func(key []byte, parts ...[]byte) ([]byte, []byte) {
		h := hmac.New(sha512.New, key)
		for _, p := range parts {
			h.Write(p)
		}
		s := h.Sum(nil)

		return s[:32], s[32:]
	}
	k, c := mac([]byte("ed25519 seed"), seed)
	for _, i := range path {
		k, c = mac(c, []byte{0}, k, binary.BigEndian.AppendUint32(nil, i|1<<31))
	}

	return ed25519.NewKeyFromSeed(k)
}

// seed40 is the BIP-39 seed of a sentence without a passphrase.
func seed40(words []string) []byte {
	return pbkdf2.Key([]byte(strings.Join(words, " ")), []byte("mnemonic"), 2048, 64, sha512.New)
}

// words40 is the list of the 2048 words and their numbers.
var words40 = sync.OnceValues(func() ([]string, map[string]int) {
	list, nums := make([]string, 2048), map[string]int{}
	for i := range list {
		e := make([]byte, 16)
		binary.BigEndian.PutUint16(e, uint16(i)<<5)
		m, err := bip39.EntropyToMnemonic(e)
		if err != nil {
			panic(err)
		}
		list[i] = m[0]
		nums[m[0]] = i
	}

	return list, nums
})

// sentence40 is the sentence of some entropy.
func sentence40(entropy []byte) []string {
	list, _ := words40()
	bits := new(big.Int).SetBytes(entropy)
	cs := len(entropy) / 4
	h := sha256.Sum256(entropy)
	bits.Lsh(bits, uint(cs)).Or(bits, big.NewInt(int64(binary.BigEndian.Uint16(h[:])>>(16-cs))))
	n := (len(entropy)*8 + cs) / 11
	out := make([]string, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = list[new(big.Int).And(bits, big.NewInt(2047)).Int64()]
		bits.Rsh(bits, 11)
	}

	return out
}

// valid40 tells whether a sentence is one of 24 known words with a matching checksum. The quirk is the
// finding that leading zero bytes of the entropy are moved to its end.
func valid40(words []string, quirk bool) bool {
	_, nums := words40()
	if len(words) != 24 {
		return false
	}
	bits := new(big.Int)
	for _, w := range words {
		n, ok := nums[w]
		if !ok {
			return false
		}
		bits.Lsh(bits, 11).Or(bits, big.NewInt(int64(n)))
	}
	cs := byte(new(big.Int).And(bits, big.NewInt(255)).Int64())
	ent := new(big.Int).Rsh(bits, 8).FillBytes(make([]byte, 32))
	if quirk {
		rest := bytes.TrimLeft(ent, "\x00")
		ent = append(bytes.Clone(rest), make([]byte, 32-len(rest))...)
	}
	h := sha256.Sum256(ent)

	return h[0] == cs
}

func path40(g *kit.G, min int) ([]uint32, string) {
	switch g.Int(0, 5, "pathKind") {
	case 0:
		return []uint32{44, 4218, 0, 0, 0}, wallet.DefaultIOTAPath
	case 1:
		return []uint32{44, 4219, 0, 0, 0}, wallet.DefaultShimmerPath
	}
	n := g.Int(min, 8, "pathLen")
	p := make([]uint32, n)
	s := make([]string, n)
	mark := rapid.SampledFrom([]string{"'", "H"}).Draw(g.T, "mark")
	for i := range p {
		p[i] = idx40(g)
		s[i] = fmt.Sprint(p[i]) + mark
	}
	if n == 0 {
		return p, rapid.SampledFrom([]string{"", "m"}).Draw(g.T, "empty")
	}

	return p, rapid.SampledFrom([]string{"m/", "m/", ""}).Draw(g.T, "prefix") + strings.Join(s, "/")
}

func idx40(g *kit.G) uint32 {
	switch g.Int(0, 3, "idxKind") {
	case 0:
		return uint32(g.Int(0, 5, "idxS"))
	case 1:
		return 1<<31 - 1 - uint32(g.Int(0, 2, "idxB"))
	}

	return rapid.Uint32Range(0, 1<<31-1).Draw(g.T, "idx")
}

func pub40(k ed25519.PrivateKey) ed25519.PublicKey { return k.Public().(ed25519.PublicKey) }

// manager40 compares a key manager with the reference over the seed and path.
func manager40(g *kit.G, km *wallet.KeyManager, seed []byte, path []uint32) {
	rt := g.T
	want := slip40(seed, path)
	same := func(what string, want ed25519.PrivateKey, idx ...uint32) {
		priv, pub := km.KeyPair(idx...)
		if !bytes.Equal(priv, want) || !bytes.Equal(pub, pub40(want)) {
			kit.Fail(rt, "%s: KeyPair(%v) is %x/%x, want %x/%x", what, idx, priv, pub, want, pub40(want))
		}
		h := kit.Blake(pub40(want))
		ed := km.Address(iotago.AddressEd25519, idx...)
		if a, ok := ed.(*iotago.Ed25519Address); !ok || *a != iotago.Ed25519Address(h) {
			kit.Fail(rt, "%s: Ed25519 address %v, want %x", what, ed, h)
		}
		im := km.Address(iotago.AddressImplicitAccountCreation, idx...)
		if a, ok := im.(*iotago.ImplicitAccountCreationAddress); !ok || *a != iotago.ImplicitAccountCreationAddress(h) {
			kit.Fail(rt, "%s: implicit account creation address %v, want %x", what, im, h)
		}
	}
	hard := func(p []uint32) []uint32 {
		out := make([]uint32, len(p))
		for i := range p {
			out[i] = p[i] | 1<<31
		}

		return out
	}
	samePath := func(got, want []uint32) {
		if fmt.Sprint(got) != fmt.Sprint(hard(want)) {
			kit.Fail(rt, "path %v, want %v", got, hard(want))
		}
	}
	same("fresh", want)
	samePath(km.Path(), path)
	if len(path) < 5 {
		return
	}
	// every index gives the key of the path with that index and no other
	n := g.Int(1, 4, "nIdx")
	idxs := make([]uint32, n)
	keys := make([]ed25519.PrivateKey, n)
	byIdx := map[uint32]ed25519.PrivateKey{}
	for i := range idxs {
		idxs[i] = idx40(g)
		p := append([]uint32(nil), path...)
		p[4] = idxs[i]
		keys[i] = slip40(seed, p)
		if g.Rare(4, "hardened") {
			// an index which is hardened already is the same index
			idxs[i] |= 1 << 31
		}
		same("indexed", keys[i], idxs[i])
		got := km.Path(idxs[i])
		samePath(got, p)
		priv, _ := km.KeyPair(idxs[i])
		for j, o := range byIdx {
			if (j == idxs[i]&^(1<<31)) != bytes.Equal(o, priv) {
				kit.Fail(rt, "the keys of the indices %d and %d: %x, %x", j, idxs[i], o, priv)
			}
		}
		byIdx[idxs[i]&^(1<<31)] = priv
		// what the caller does to a path is its own business
		for k := range got {
			got[k] = 1<<31 | 7
		}
	}
	own := km.Path()
	for k := range own {
		own[k] = 1<<31 | 9
	}
	samePath(km.Path(), path)
	same("again", want)
	same("again", keys[n-1], idxs[n-1])

	// the signer signs for these keys and no others
	msg := g.Var(0, 200, "msgLen")
	check := func(s iotago.AddressSigner, held []ed25519.PrivateKey, not []ed25519.PrivateKey) {
		for _, k := range held {
			for _, a := range addrs40(k) {
				signs40(g, s, a, k, msg)
			}
		}
		for _, k := range not {
			for _, h := range held {
				if bytes.Equal(h, k) {
					k = nil

					break
				}
			}
			if k == nil {
				continue
			}
			for _, a := range addrs40(k) {
				lacks40(g, s, a, msg, iotago.ErrAddressKeysNotMapped)
			}
		}
	}
	check(km.AddressSigner(), []ed25519.PrivateKey{want}, keys)
	check(km.AddressSigner(idxs...), keys, []ed25519.PrivateKey{want, kit.Keys()[0].Priv})
}

// addrs40 are the addresses a key owns.
func addrs40(k ed25519.PrivateKey) []iotago.Address {
	h := kit.Blake(pub40(k))
	ed, im := iotago.Ed25519Address(h), iotago.ImplicitAccountCreationAddress(h)

	return []iotago.Address{&ed, &im, &iotago.RestrictedAddress{Address: &ed, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{h[0] | 1}}}
}

func signs40(g *kit.G, s iotago.AddressSigner, a iotago.Address, k ed25519.PrivateKey, msg []byte) {
	rt := g.T
	keep := bytes.Clone(msg)
	sig, err := s.Sign(a, msg)
	kit.NoErr(rt, err, "signing for a held address")
	if !bytes.Equal(keep, msg) {
		kit.Fail(rt, "signing changed the message")
	}
	es, ok := sig.(*iotago.Ed25519Signature)
	if !ok || !bytes.Equal(es.PublicKey[:], pub40(k)) || !ed25519.Verify(pub40(k), msg, es.Signature[:]) {
		kit.Fail(rt, "%T signature %v does not verify for the key of %v", sig, sig, a)
	}
	h := kit.Blake(pub40(k))
	ed := iotago.Ed25519Address(h)
	kit.NoErr(rt, es.Valid(msg, &ed), "validating the signature")
	direct := a
	if r, ok := a.(*iotago.RestrictedAddress); ok {
		direct = r.Address
	}
	if !es.MatchesAddress(direct) {
		kit.Fail(rt, "the signature of %v does not match it", a)
	}
	other := append(bytes.Clone(msg), 0)
	if len(msg) > 0 && g.Int(0, 1, "flip") == 0 {
		other = bytes.Clone(msg)
		other[g.Int(0, len(msg)-1, "at")] ^= 1 << g.Int(0, 7, "bit")
	}
	if es.Valid(other, &ed) == nil {
		kit.Fail(rt, "the signature of %x is valid for %x", msg, other)
	}
	oa := ed
	oa[g.Int(0, 31, "oa")] ^= 1 << g.Int(0, 7, "obit")
	if es.Valid(msg, &oa) == nil || es.MatchesAddress(&oa) {
		kit.Fail(rt, "the signature for %x is valid for the address %x", ed, oa)
	}
	uid, err := s.SignerUIDForAddress(a)
	kit.NoErr(rt, err, "signer UID")
	if uid != iotago.Identifier(h) || es.SignerUID() != uid {
		kit.Fail(rt, "signer UID %x, the signature says %x, want %x", uid, es.SignerUID(), h)
	}
	empty, err := s.EmptySignatureForAddress(a)
	kit.NoErr(rt, err, "empty signature")
	if e, ok := empty.(*iotago.Ed25519Signature); !ok || *e != (iotago.Ed25519Signature{}) {
		kit.Fail(rt, "empty signature %T %v", empty, empty)
	}
}

func lacks40(g *kit.G, s iotago.AddressSigner, a iotago.Address, msg []byte, want error) {
	sig, err := s.Sign(a, msg)
	if !errors.Is(err, want) || sig != nil {
		kit.Fail(g.T, "signing for %T %v without its key gave %v, %v, want %v", a, a, sig, err, want)
	}
	if uid, err := s.SignerUIDForAddress(a); !errors.Is(err, want) || uid != iotago.EmptyIdentifier {
		kit.Fail(g.T, "signer UID of %T %v without its key gave %v, %v, want %v", a, a, uid, err, want)
	}
}

// TestC40 derives keys and addresses from raw seeds.
func TestC40(t *testing.T) {
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		n := g.Int(16, 64, "seedLen")
		seed := g.Bytes(n, "seed")
		path, text := path40(g, 0)
		given := bytes.Clone(seed)
		km, err := wallet.NewKeyManager(given, text)
		kit.NoErr(rt, err, "key manager")
		if g.Int(0, 2, "wipe") == 0 {
			clear(given) // a careful caller forgets the seed
		}
		manager40(g, km, seed, path)
		c.Label(fmt.Sprintf("path length %d", len(path)))
		if len(path) >= 5 {
			c.NonTrivial("raw", fmt.Sprintf("%x", seed), text)
		}
		c.Sample("seed %x path %q", seed, text)
	})
}

// TestC40_Mnemonic derives keys from sentences, and refuses wrong sentences and paths.
func TestC40_Mnemonic(t *testing.T) {
	kit.Check(t, 150, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		list, _ := words40()
		words := sentence40(kit.Expand(rapid.Uint64().Draw(rt, "entropy"), 32))
		path, text := path40(g, 5)
		kind := rapid.SampledFrom([]string{"good", "good", "space", "random", "swap", "word", "case", "short", "path", "zero"}).Draw(rt, "kind")
		sep, lead := " ", ""
		bad := text
		switch kind {
		case "space":
			sep = rapid.SampledFrom([]string{"  ", "\n", "\t", " \r\n"}).Draw(rt, "sep")
			lead = rapid.SampledFrom([]string{"", " ", "\n"}).Draw(rt, "lead")
		case "zero":
			e := kit.Expand(rapid.Uint64().Draw(rt, "entropy2"), 32)
			clear(e[:g.Int(1, 31, "zeros")])
			words = sentence40(e)
		case "random":
			e := kit.Expand(rapid.Uint64().Draw(rt, "entropy2"), 24)
			words = append(sentence40(e)[:12:12], words[12:]...)
		case "swap":
			i, j := g.Int(0, 23, "i"), g.Int(0, 23, "j")
			words[i], words[j] = words[j], words[i]
		case "word":
			words[g.Int(0, 23, "i")] = list[g.Int(0, 2047, "word")]
		case "case":
			i := g.Int(0, 23, "i")
			words[i] = rapid.SampledFrom([]string{strings.ToUpper(words[i]), words[i] + "x", words[i][:2], "\u00e9"}).Draw(rt, "odd")
		case "short":
			e := kit.Expand(rapid.Uint64().Draw(rt, "entropy2"), rapid.SampledFrom([]int{16, 20, 24, 28, 36, 64}).Draw(rt, "entLen"))
			words = sentence40(e)
		case "path":
			bad = rapid.SampledFrom([]string{text + "/x", text + "''", text + "/", text + "/2147483648'", text + "/-1'", text + "/1 '", " " + text, "n/" + strings.TrimPrefix(text, "m/"), text + "/99999999999999999999'", strings.Replace(text, "/", "//", 1), text + "/'", strings.ReplaceAll(text, "/", ".")}).Draw(rt, "badPath")
		}
		km, err := wallet.NewKeyManagerFromMnemonic(lead+strings.Join(words, sep)+lead, bad)
		ok := valid40(words, false) && bad == text
		c.Label(fmt.Sprintf("%s ok=%v", kind, ok))
		c.NonTrivial("words", strings.Join(words, " "), bad)
		c.Sample("%q %q", strings.Join(words, sep), bad)
		if quirk := bad == text && valid40(words, true); quirk != ok && quirk == (err == nil) && kit.IsKnown("C40", "leading-zero-entropy") {
			kit.Reproduced("leading-zero-entropy")

			return
		}
		if !ok {
			if err == nil {
				kit.Fail(rt, "the sentence %q with the path %q was accepted", words, bad)
			}
			if kind == "path" {
				if _, err := wallet.NewKeyManager(kit.Expand(1, 32), bad); err == nil {
					kit.Fail(rt, "the path %q was accepted", bad)
				}
				if _, err := wallet.NewKeyManagerFromRandom(bad); err == nil {
					kit.Fail(rt, "the path %q was accepted", bad)
				}
			}

			return
		}
		kit.NoErr(rt, err, "a valid sentence (%s) %q", kind, words)
		manager40(g, km, seed40(words), path)
		if got := km.Mnemonic(); strings.Join(got, " ") != strings.Join(words, " ") {
			kit.Fail(rt, "the manager of the sentence %q says its sentence is %q", words, got)
		}
	})
}

// TestC40_Random restores random managers from their sentences.
func TestC40_Random(t *testing.T) {
	seen := sync.Map{}
	kit.Check(t, 60, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		path, text := path40(g, 5)
		km, err := wallet.NewKeyManagerFromRandom(text)
		kit.NoErr(rt, err, "random manager")
		m := km.Mnemonic()
		if !valid40(m, true) {
			kit.Fail(rt, "a random manager's sentence %q is not a valid one", m)
		}
		if _, dup := seen.LoadOrStore(strings.Join(m, " "), true); dup {
			kit.Fail(rt, "the random sentence %q came twice", m)
		}
		manager40(g, km, seed40(m), path)
		m[0] = "x"
		again, err := wallet.NewKeyManagerFromMnemonic(km.Mnemonic().String(), text)
		kit.NoErr(rt, err, "restoring a random manager")
		a, _ := km.KeyPair()
		b, _ := again.KeyPair()
		if !bytes.Equal(a, b) {
			kit.Fail(rt, "the sentence of a random manager restores other keys")
		}
		c.NonTrivial("random", m.String(), text)
	})
}

// TestC40_Signer builds signers from mixed key sets.
func TestC40_Signer(t *testing.T) {
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		type slot struct {
			kind string
			key  int
		}
		held := map[slot]bool{}  // address → its key is held
		wrong := map[slot]bool{} // address → something else is
		var entries []iotago.AddressKeys
		n := g.Int(0, 8, "entries")
		for range n {
			i := g.Int(0, 5, "key")
			k := kit.Keys()[i]
			kind := rapid.SampledFrom([]string{"ed", "ed", "imp", "restr", "wrong"}).Draw(rt, "kind")
			s := slot{kind, i}
			if kind == "restr" {
				s.kind = "ed"
			}
			if kind == "wrong" {
				s.kind = rapid.SampledFrom([]string{"ed", "imp"}).Draw(rt, "wrongOf")
			}
			if held[s] || wrong[s] {
				continue // one entry per address
			}
			switch kind {
			case "ed":
				entries = append(entries, iotago.NewAddressKeysForEd25519Address(k.Addr, k.Priv))
			case "imp":
				entries = append(entries, iotago.NewAddressKeysForImplicitAccountCreationAddress(k.Imp, k.Priv))
			case "restr":
				e, err := iotago.NewAddressKeysForRestrictedEd25519Address(&iotago.RestrictedAddress{Address: k.Addr, AllowedCapabilities: kit.CapsMask(uint16(g.Int(1, 511, "caps")))}, k.Priv)
				kit.NoErr(rt, err, "restricted address keys")
				entries = append(entries, e)
			default:
				var junk any = rapid.SampledFrom([]any{[]byte(k.Priv), string(k.Priv), nil, &k.Priv, pub40(k.Priv)}).Draw(rt, "junk")
				var a iotago.Address = k.Addr
				if s.kind == "imp" {
					a = k.Imp
				}
				entries = append(entries, iotago.AddressKeys{Address: a, Keys: junk})
				wrong[s] = true

				continue
			}
			held[s] = true
		}
		signer := iotago.NewInMemoryAddressSigner(entries...)
		msg := g.Var(0, 300, "msgLen")
		for i := 0; i < 6; i++ {
			k := kit.Keys()[i]
			for _, a := range []iotago.Address{k.Addr, k.Imp, &iotago.RestrictedAddress{Address: k.Addr, AllowedCapabilities: kit.CapsMask(uint16(g.Int(1, 511, "caps")))}} {
				s := slot{"ed", i}
				if _, ok := a.(*iotago.ImplicitAccountCreationAddress); ok {
					s.kind = "imp"
				}
				switch {
				case held[s]:
					signs40(g, signer, a, k.Priv, msg)
				case wrong[s]:
					lacks40(g, signer, a, msg, iotago.ErrAddressKeysWrongType)
				default:
					lacks40(g, signer, a, msg, iotago.ErrAddressKeysNotMapped)
				}
			}
		}
		// a transaction is signed by each of the keys, in their order
		tx := g.Tx(kit.TxOpt{}).Transaction
		sigs, err := tx.Sign(entries...)
		if (err == nil) != (len(wrong) == 0) {
			kit.Fail(rt, "signing a transaction with %d keys of which %d are of the wrong type: %v", len(entries), len(wrong), err)
		}
		if err == nil {
			want := kit.RefSigningMsg(tx)
			if len(sigs) != len(entries) {
				kit.Fail(rt, "%d signatures of %d keys", len(sigs), len(entries))
			}
			for i, s := range sigs {
				es, ok := s.(*iotago.Ed25519Signature)
				key := entries[i].Keys.(ed25519.PrivateKey)
				if !ok || !bytes.Equal(es.PublicKey[:], pub40(key)) || !ed25519.Verify(pub40(key), want[:], es.Signature[:]) {
					kit.Fail(rt, "signature %d of a transaction is not of key %x over its signing message", i, pub40(key))
				}
			}
		}
		c.Label(fmt.Sprintf("%d held %d wrong", min(len(held), 3), min(len(wrong), 2)))
		if len(held) > 0 {
			c.NonTrivial("signer", fmt.Sprint(held), fmt.Sprint(wrong), fmt.Sprintf("%x", msg))
		}
	})
}

// TestC40_Account checks accounts made of an ID and a key.
func TestC40_Account(t *testing.T) {
	kit.Check(t, 400, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		var id iotago.AccountID
		copy(id[:], g.Bytes(32, "id"))
		priv := ed25519.NewKeyFromSeed(g.Bytes(32, "priv"))
		idText, keyText := "0x"+hex.EncodeToString(id[:]), hex.EncodeToString(priv)
		kind := rapid.SampledFrom([]string{"new", "text", "text", "noPrefix", "idShort", "idLong", "idDigit", "keyShort", "keyLong", "keyDigit", "empty"}).Draw(rt, "kind")
		c.Label(kind)
		c.NonTrivial("account", kind, idText, keyText)
		cut := func(s string) string { return s[:len(s)-g.Int(1, len(s)-2, "cut")] }
		digit := func(s string) string {
			b := []byte(s)
			b[g.Int(2, len(b)-1, "at")] = rapid.SampledFrom([]byte("gx -/:@`")).Draw(rt, "ch")

			return string(b)
		}
		good := false
		switch kind {
		case "new", "text":
			good = true
		case "noPrefix":
			idText = idText[2:]
		case "idShort":
			idText = cut(idText)
		case "idLong":
			idText += rapid.SampledFrom([]string{"0", "00", idText[2:]}).Draw(rt, "more")
		case "idDigit":
			idText = digit(idText)
		case "keyShort":
			keyText = cut(keyText)
		case "keyLong":
			keyText += rapid.SampledFrom([]string{"0", "00", keyText}).Draw(rt, "more")
		case "keyDigit":
			keyText = digit(keyText)
		case "empty":
			if g.Int(0, 1, "which") == 0 {
				idText = ""
			} else {
				keyText = ""
			}
		}
		var acc wallet.Account = wallet.NewEd25519Account(id, priv)
		if kind != "new" {
			var err error
			acc, err = wallet.AccountFromParams(idText, keyText)
			if !good {
				if err == nil {
					kit.Fail(rt, "the account %q with the key %q was accepted", idText, keyText)
				}

				return
			}
			kit.NoErr(rt, err, "account from text")
		}
		h := kit.Blake(pub40(priv))
		owner, ok := acc.OwnerAddress().(*iotago.Ed25519Address)
		if acc.ID() != id || *acc.Address() != iotago.AccountAddress(id) || !ok || *owner != iotago.Ed25519Address(h) || !bytes.Equal(acc.PrivateKey(), priv) {
			kit.Fail(rt, "the account of %x and %x has ID %x, address %x, owner %v, key %x", id, priv, acc.ID(), *acc.Address(), acc.OwnerAddress(), acc.PrivateKey())
		}
	})
}
