package t_misc

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"
	"unicode"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/bech32"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// ---- reference BIP-173

const b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func polymod(hrp string, vs []byte) uint32 {
	chk := uint32(1)
	step := func(v byte) {
		top := chk >> 25
		chk = chk&0x1ffffff<<5 ^ uint32(v)
		for i, g := range []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
			if top>>i&1 == 1 {
				chk ^= g
			}
		}
	}
	for i := 0; i < len(hrp); i++ {
		step(hrp[i] >> 5)
	}
	step(0)
	for i := 0; i < len(hrp); i++ {
		step(hrp[i] & 31)
	}
	for _, v := range vs {
		step(v)
	}
	return chk
}

// groups regroups bytes to 5-bit digits.
func groups(b []byte) (r []byte) {
	acc, n := uint32(0), 0
	for _, x := range b {
		acc, n = acc<<8|uint32(x), n+8
		for n >= 5 {
			n -= 5
			r = append(r, byte(acc>>n&31))
		}
	}
	if n > 0 {
		r = append(r, byte(acc<<(5-n)&31))
	}
	return
}

func fromDigits(hrp string, ds []byte) string {
	c := polymod(hrp, append(append([]byte{}, ds...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 5; i >= 0; i-- {
		ds = append(ds[:len(ds):len(ds)], byte(c>>(5*i)&31))
	}
	s := hrp + "1"
	for _, d := range ds {
		s += string(b32[d])
	}
	return s
}

func refEncode(hrp string, b []byte) string { return fromDigits(hrp, groups(b)) }

// refDecode is BIP-173 with its length limit, plus canonical padding.
func refDecode(s string) (hrp string, b []byte, ok bool) {
	if len(s) > 90 {
		return
	}
	up, low := false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 33 || c > 126 {
			return
		}
		up, low = up || c >= 'A' && c <= 'Z', low || c >= 'a' && c <= 'z'
	}
	if up && low {
		return
	}
	s = strings.ToLower(s)
	i := strings.LastIndexByte(s, '1')
	if i < 1 || len(s)-i-1 < 6 {
		return
	}
	var ds []byte
	for _, c := range []byte(s[i+1:]) {
		d := strings.IndexByte(b32, c)
		if d < 0 {
			return
		}
		ds = append(ds, byte(d))
	}
	if polymod(s[:i], ds) != 1 {
		return
	}
	ds = ds[:len(ds)-6]
	b = []byte{}
	acc, n := uint32(0), 0
	for _, d := range ds {
		acc, n = acc<<5|uint32(d), n+5
		if n >= 8 {
			n -= 8
			b = append(b, byte(acc>>n))
		}
	}
	if n >= 5 || acc&(1<<n-1) != 0 {
		return "", nil, false
	}
	return s[:i], b, true
}

func genHRP(g *kit.G, max int) string {
	if g.Rare(3, "known hrp") {
		return rapid.SampledFrom([]string{"iota", "smr", "tst", "rms", "atoi", "1", "a1b", "~", "!"}).Draw(g.T, "hrp")
	}
	n := g.Int(1, 8, "hrplen")
	if g.Rare(5, "long") {
		n = max
	}
	n = min(n, max)
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(g.Int(33, 126, "h"))
		if r[i] >= 'A' && r[i] <= 'Z' {
			r[i] += 32
		}
	}
	return string(r)
}

func decode(rt *rapid.T, s string) (hrp string, b []byte, err error) {
	if p := kit.Panics(func() { hrp, b, err = bech32.Decode(s) }); p != nil {
		kit.Fail(rt, "bech32.Decode(%q) panics: %v", s, p)
	}
	return
}

func parse(rt *rapid.T, s string) (p iotago.NetworkPrefix, a iotago.Address, err error) {
	if e := kit.Panics(func() { p, a, err = iotago.ParseBech32(s) }); e != nil {
		kit.Fail(rt, "ParseBech32(%q) panics: %v", s, e)
	}
	return
}

// agree compares a decoding with the reference.
func agree(rt *rapid.T, s string) bool {
	h, b, ok := refDecode(s)
	gh, gb, err := decode(rt, s)
	if ok != (err == nil) {
		kit.Fail(rt, "bech32.Decode(%q) = %q %x %v, reference accepts: %v", s, gh, gb, err, ok)
	}
	if ok && (h != gh || !bytes.Equal(b, gb)) {
		kit.Fail(rt, "bech32.Decode(%q) = %q %x, want %q %x", s, gh, gb, h, b)
	}
	// whatever parses as an address encodes to the same text
	p, a, err := parse(rt, s)
	if err == nil {
		if !ok {
			kit.Fail(rt, "ParseBech32(%q) accepts what is not bech32", s)
		}
		var t string
		if e := kit.Panics(func() { t = a.Bech32(p) }); e != nil {
			kit.Fail(rt, "encoding the address parsed from %q panics: %v", s, e)
		}
		if t != strings.ToLower(s) {
			kit.Fail(rt, "ParseBech32(%q) gives an address that encodes to %q", s, t)
		}
	}
	return err == nil
}

// odd are characters with surprising case mappings or encodings.
var odd = []string{"\u212a", "\u0130", "\u0131", "\u017f", "ß", "é", "\xff", "\x00", " ", "\n", "\u2c65", "\U0001f600", "\u00ad"}

// corrupt alters a text; symbols is the number of data characters replaced by others (0: another kind of change).
func corrupt(g *kit.G, s string) (t, how string, symbols int) {
	b := []byte(s)
	sep := strings.LastIndexByte(s, '1')
	switch k := g.Int(0, 11, "corrupt"); k {
	case 0, 1, 2, 3: // one to four characters of the data part
		n := k + 1
		seen := map[int]bool{}
		for len(seen) < n {
			i := g.Int(sep+1, len(b)-1, "pos")
			if seen[i] {
				if len(b)-sep-1 <= n {
					break
				}
				continue
			}
			seen[i] = true
			d := strings.IndexByte(b32, lowerB(b[i]))
			c := b32[(d+g.Int(1, 31, "by"))%32]
			if b[i] >= 'A' && b[i] <= 'Z' || s == strings.ToUpper(s) {
				c = strings.ToUpper(string(c))[0]
			}
			b[i] = c
		}
		return string(b), "substitution", len(seen)
	case 4: // any printable character anywhere, up to three
		for i, n := 0, g.Int(1, 3, "n"); i < n; i++ {
			b[g.Int(0, len(b)-1, "pos")] = byte(g.Int(33, 126, "c"))
		}
		return string(b), "characters", 0
	case 5: // the case of one letter
		i := g.Int(0, len(b)-1, "pos")
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		} else if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
		return string(b), "case", 0
	case 6:
		i := g.Int(0, len(b)-1, "pos")
		return string(append(b[:i:i], b[i+1:]...)), "deletion", 0
	case 7:
		i := g.Int(0, len(b), "pos")
		return s[:i] + string(b32[g.Int(0, 31, "c")]) + s[i:], "insertion", 0
	case 8: // a letter replaced by, or joined with, an odd character
		i := g.Int(0, len(b)-1, "pos")
		o := rapid.SampledFrom(odd).Draw(g.T, "odd")
		if j := strings.IndexAny(s[i:], "kKsSiI"); j >= 0 && g.Bool("like") {
			i, j = i+j, i+j
			o = map[byte]string{'k': "\u212a", 's': "\u017f", 'i': "\u0131"}[lowerB(s[j])]
		}
		if g.Bool("replace") {
			return s[:i] + o + s[i+1:], "odd", 0
		}
		return s[:i] + o + s[i:], "odd", 0
	case 9:
		return s[:g.Int(0, len(s)-1, "cut")], "truncation", 0
	case 10:
		return rapid.SampledFrom([]string{" " + s, s + " ", s + "\n", s + "\x00", s + s, "1" + s, s + "1", s[sep:], s[sep+1:], s[:sep] + s[sep+1:]}).Draw(g.T, "wrap"), "wrapping", 0
	default: // neighbours exchanged
		i := g.Int(0, len(b)-2, "pos")
		b[i], b[i+1] = b[i+1], b[i]
		return string(b), "exchange", 0
	}
}

func lowerB(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func TestC32_Addresses(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		a := g.Addr(kit.KAll, "a")
		id := []byte(kit.RefAddrID(a))
		hrp := genHRP(g, 90-7-len(groups(id)))
		want := refEncode(hrp, id)
		if got := a.Bech32(iotago.NetworkPrefix(hrp)); got != want {
			kit.Fail(rt, "%T %x encodes to %q, want %q", a, id, got, want)
		}
		if got := a.Bech32(iotago.NetworkPrefix(strings.ToUpper(hrp))); got != want && got != strings.ToUpper(want) {
			kit.Fail(rt, "with the upper-case prefix: %q", got)
		}
		for _, s := range []string{want, strings.ToUpper(want)} {
			p, b, err := parse(rt, s)
			kit.NoErr(rt, err, "parse %q", s)
			if string(p) != hrp || b.Type() != a.Type() || b.Key() != a.Key() || !bytes.Equal(b.ID(), a.ID()) || !bytes.Equal(b.ID(), id) {
				kit.Fail(rt, "%q parses to %q %T %x, want %q %x", s, p, b, b.ID(), hrp, id)
			}
			if _, multi := plainOf(a).(*iotago.MultiAddress); !multi && (!a.Equal(b) || !b.Equal(a)) {
				kit.Fail(rt, "the parsed %T does not equal the original", b)
			}
			if !agree(rt, s) {
				kit.Harness(rt, "not accepted twice")
			}
		}
		rejected := 0
		for k := 0; k < 8; k++ {
			s := want
			if g.Rare(3, "upper") {
				s = strings.ToUpper(s)
			}
			x, how, n := corrupt(g, s)
			if x == s || x == want || x == strings.ToUpper(want) {
				continue
			}
			ok := agree(rt, x)
			if ok && (n > 0 || how == "case") {
				kit.Fail(rt, "%d wrong characters (%s) in %q are not detected: %q", n, how, s, x)
			}
			if !ok {
				rejected++
			}
			c.Label(how)
		}
		// right checksum, wrong content
		b := append([]byte{}, id...)
		how := ""
		switch g.Int(0, 6, "content") {
		case 0:
			b, how = append(b, byte(g.Int(0, 255, "x"))), "trailing byte"
		case 1:
			b, how = b[:g.Int(0, len(b)-1, "cut")], "cut"
		case 2:
			b[0], how = byte(g.Int(0, 255, "type")), "type"
		case 3:
			b, how = nil, "empty"
		case 4:
			b, how = g.Bytes(g.Int(0, 50, "rl"), "rnd"), "random"
			if len(b) > 0 {
				b[0] = rapid.SampledFrom([]byte{0, 8, 16, 24, 32, 40, 48}).Draw(rt, "rtype")
			}
			if len(b) > 1 {
				b[1] = rapid.SampledFrom([]byte{0, 8, 16, 24, 32, 40, 48}).Draw(rt, "rtype2")
			}
		case 5:
			b[len(b)-1] ^= byte(g.Int(1, 255, "last"))
			how = "last byte"
		case 6:
			// a restriction of an address of each kind, with a mask of any length
			b = []byte{48, rapid.SampledFrom([]byte{0, 8, 16, 32, 40, 48}).Draw(rt, "inner")}
			if b[1] == 48 {
				b = append(b, rapid.SampledFrom([]byte{0, 8, 40}).Draw(rt, "innermost"))
			}
			b = append(b, g.Bytes(32, "iid")...)
			if b[1] == 48 {
				b = append(b, 0)
			}
			m := g.Int(0, 3, "mask")
			b = append(b, byte(m))
			for ; m > 0; m-- {
				b = append(b, rapid.SampledFrom([]byte{0, 1, 255}).Draw(rt, "mb"))
			}
			how = "restriction"
		}
		if len(groups(b))+7+len(hrp) <= 90 {
			s := refEncode(hrp, b)
			ok := agree(rt, s)
			if want, known := wellFormed(b); known && ok != want {
				kit.Fail(rt, "address bytes %x (%s) accepted %v, should be %v", b, how, ok, want)
			}
			c.Label("content " + how)
		}
		// bad padding
		if ds := groups(id); len(id)*8%5 != 0 {
			d := append([]byte{}, ds...)
			free := 5*len(ds) - 8*len(id)
			d[len(d)-1] ^= byte(g.Int(1, 1<<free-1, "pad"))
			if agree(rt, fromDigits(hrp, d)) {
				kit.Fail(rt, "non-zero padding is accepted: %q", fromDigits(hrp, d))
			}
			if agree(rt, fromDigits(hrp, append(append([]byte{}, ds...), 0))) && len(hrp)+8+len(ds) <= 90 {
				kit.Fail(rt, "an excess padding character is accepted")
			}
		}
		c.NonTrivial(want)
		c.Label(fmt.Sprintf("%T", a))
		c.Sample("%s: %d corruptions rejected", want, rejected)
	})
}

// plainOf is the address below a restriction.
func plainOf(a iotago.Address) iotago.Address {
	if r, ok := a.(*iotago.RestrictedAddress); ok {
		return r.Address
	}
	return a
}

// wellFormed tells whether bytes are an address, where the shape alone decides.
func wellFormed(b []byte) (ok, known bool) {
	if len(b) == 0 {
		return false, true
	}
	switch b[0] {
	case 0, 8, 16, 24, 32, 40:
		return len(b) == 33, true
	case 48:
		if len(b) < 35 || len(b) != 35+int(b[34]) {
			return false, true
		}
		switch b[1] {
		case 0, 8, 16, 24, 40:
			// a mask of at most two bytes, the last of which is not zero
			return b[34] == 0 || b[34] <= 2 && b[len(b)-1] != 0, true
		}
		return false, true
	}
	return false, true
}

// at demands a refusal with the given reason at the given position.
func at(rt *rapid.T, s string, kind error, pos int) {
	_, _, err := decode(rt, s)
	var e *bech32.SyntaxError
	if !errors.As(err, &e) || !errors.Is(err, kind) || e.Offset != pos {
		kit.Fail(rt, "bech32.Decode(%q) reports %v (%+v), want %v at %d", s, err, e, kind, pos)
	}
}

// TestC32_Texts: the decoder against the reference on arbitrary text and data.
func TestC32_Texts(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		n := g.Int(0, 50, "len")
		b := g.Bytes(n, "b")
		hrp := genHRP(g, 84)
		want := refEncode(hrp, b)
		s, err := bech32.Encode(hrp, b)
		if fits := len(want) <= 90; fits != (err == nil) || fits && s != want {
			kit.Fail(rt, "bech32.Encode(%q, %x) = %q %v, want %q", hrp, b, s, err, want)
		}
		agree(rt, want)
		agree(rt, strings.ToUpper(want))
		x := want
		for i, m := 0, g.Int(1, 3, "times"); i < m && len(x) > 10 && strings.LastIndexByte(x, '1') >= 0 && strings.LastIndexByte(x, '1') < len(x)-1; i++ {
			x, _, _ = corrupt(g, x)
			agree(rt, x)
		}
		// other digits with a right checksum
		ds := make([]byte, g.Int(0, 80, "digits"))
		for i := range ds {
			ds[i] = byte(g.Int(0, 31, "d"))
		}
		agree(rt, fromDigits(hrp, ds))
		// unfit prefixes
		for _, h := range []string{"", "iOta", "Iota", "a b", "a\x7f", "\u212a", "aİ", "é", "\xff"} {
			var err error
			var s string
			if p := kit.Panics(func() { s, err = bech32.Encode(h, []byte{1}) }); p != nil || err == nil {
				kit.Fail(rt, "bech32.Encode(%q) = %q %v %v", h, s, err, p)
			}
		}
		agree(rt, rapid.StringN(0, 40, 100).Draw(rt, "text"))
		// a checksum that is right, over a prefix no text may have, in letters of both cases, or nothing at all
		if len(want) <= 90 {
			h := []byte(hrp)
			i := g.Int(0, len(h)-1, "at")
			h[i] = rapid.SampledFrom([]byte{0, 9, 10, 31, 32, 127, 128, 0xc3, 0xff, 'A', 'Z'}).Draw(rt, "unfit")
			agree(rt, refEncode(string(h), b))
			if x := refEncode(string(h), b); h[i] < 33 || h[i] > 126 {
				at(rt, x, bech32.ErrInvalidCharacter, i)
			}
			agree(rt, refEncode("", b))
			// one character that cannot be there is pointed at
			p := g.Int(len(hrp)+1, len(want)-1, "pos")
			bad := rapid.SampledFrom([]byte("bio!~-_\x00 \x7f")).Draw(rt, "bad")
			x := want[:p] + string(bad) + want[p+1:]
			agree(rt, x)
			at(rt, x, bech32.ErrInvalidCharacter, p)
			x = want[:p] + "\u212a" + want[p+1:]
			if len(x) <= 90 {
				at(rt, x, bech32.ErrInvalidCharacter, p)
			}
			// a wrong checksum
			c := b32[(strings.IndexByte(b32, want[p])+g.Int(1, 31, "other"))%32]
			at(rt, want[:p]+string(c)+want[p+1:], bech32.ErrInvalidChecksum, len(want)-6)
			// the first character of the other case
			if u := strings.ToUpper(want); u != want {
				l := strings.IndexFunc(want, unicode.IsLower)
				if m := strings.IndexFunc(want[l+1:], unicode.IsLower); m >= 0 {
					m += l + 1
					at(rt, want[:m]+u[m:], bech32.ErrMixedCase, m)
					at(rt, u[:m]+want[m:], bech32.ErrMixedCase, m)
				}
			}
			// no room for a checksum
			at(rt, want[:len(hrp)+1+g.Int(0, 4, "room")], bech32.ErrInvalidSeparator, len(hrp))
			at(rt, "1"+strings.ReplaceAll(want, "1", ""), bech32.ErrInvalidSeparator, 0)
			if _, _, err := decode(rt, strings.ReplaceAll(want, "1", "")); !errors.Is(err, bech32.ErrMissingSeparator) {
				kit.Fail(rt, "without separator: %v", err)
			}
		} else {
			at(rt, want, bech32.ErrInvalidLength, 90)
		}
		c.NonTrivial(want)
		c.Sample("%q", x)
	})
}
