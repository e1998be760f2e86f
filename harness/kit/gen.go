package kit

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/big"
	"sort"
	"time"

	stded "crypto/ed25519"
	"github.com/iotaledger/hive.go/crypto/ed25519"
	iotago "github.com/iotaledger/iota.go/v4"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
)

// G generates objects valid under an environment.
type G struct {
	T *rapid.T
	E *Env
}

func (g *G) Int(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(g.T, l) }
func (g *G) Bool(l string) bool           { return rapid.Bool().Draw(g.T, l) }

// One in n.
func (g *G) Rare(n int, l string) bool { return rapid.IntRange(0, n-1).Draw(g.T, l) == n-1 }

// U64 draws a number biased to boundaries.
func (g *G) U64(l string) uint64 {
	switch g.Int(0, 5, l+"?") {
	case 0:
		return uint64(g.Int(0, 300, l))
	case 1:
		return math.MaxUint64 - uint64(g.Int(0, 5, l))
	case 2:
		b := uint(g.Int(1, 63, l))
		return uint64(1)<<b + uint64(g.Int(0, 2, l)) - 1
	default:
		return rapid.Uint64().Draw(g.T, l)
	}
}

// U64Max draws a number in 0..max biased to both ends.
func (g *G) U64Max(max uint64, l string) uint64 {
	switch g.Int(0, 3, l+"?") {
	case 0:
		return rapid.Uint64Range(0, min(max, 40)).Draw(g.T, l)
	case 1:
		return max - rapid.Uint64Range(0, min(max, 40)).Draw(g.T, l)
	default:
		return rapid.Uint64Range(0, max).Draw(g.T, l)
	}
}

func (g *G) U32(l string) uint32 {
	switch g.Int(0, 4, l+"?") {
	case 0:
		return uint32(g.Int(0, 300, l))
	case 1:
		return math.MaxUint32 - uint32(g.Int(0, 5, l))
	default:
		return rapid.Uint32().Draw(g.T, l)
	}
}

// Expand deterministically expands a number to n bytes.
func Expand(seed uint64, n int) []byte {
	out := make([]byte, 0, n+8)
	x := seed
	for len(out) < n {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		out = binary.LittleEndian.AppendUint64(out, z)
	}
	return out[:n]
}

// Bytes draws n bytes: mostly expanded from a seed, sometimes zero or ones.
func (g *G) Bytes(n int, l string) []byte {
	switch g.Int(0, 11, l+"?") {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	case 2:
		b := make([]byte, n)
		if n > 0 {
			b[n-1] = 1
		}
		return b
	default:
		return Expand(rapid.Uint64().Draw(g.T, l), n)
	}
}

// B32 draws 32 bytes from a small pool or at random, never all zero.
func (g *G) B32(l string) (r [32]byte) {
	if g.Bool(l + "?") {
		copy(r[:], Expand(uint64(g.Int(1, 6, l)), 32))
		return
	}
	copy(r[:], Expand(rapid.Uint64().Draw(g.T, l), 32))
	return
}

// Var draws between lo and hi bytes.
func (g *G) Var(lo, hi int, l string) []byte {
	n := g.Int(lo, hi, l+".n")
	return Expand(rapid.Uint64().Draw(g.T, l), n)
}

// ---- keys

// KeyN is the number of pooled keys.
const KeyN = 12

// Key is a pooled key pair.
type Key struct {
	Priv stded.PrivateKey
	Addr *iotago.Ed25519Address
	Imp  *iotago.ImplicitAccountCreationAddress
	Hash [32]byte
}

var keys []*Key

func init() {
	for i := 0; i < KeyN; i++ {
		p := stded.NewKeyFromSeed(Expand(uint64(1000+i), 32))
		h := blake2b.Sum256(p.Public().(stded.PublicKey))
		a := iotago.Ed25519Address(h)
		im := iotago.ImplicitAccountCreationAddress(h)
		keys = append(keys, &Key{Priv: p, Addr: &a, Imp: &im, Hash: h})
	}
}

// Keys returns the pool.
func Keys() []*Key { return keys }

// HiveKey converts.
func (k *Key) HivePub() ed25519.PublicKey {
	pk, _, err := ed25519.PublicKeyFromBytes(k.Priv.Public().(stded.PublicKey))
	if err != nil {
		panic(err)
	}
	return pk
}

// ---- addresses

// AddrKind restricts address generation.
type AddrKind uint

const (
	KEd AddrKind = 1 << iota
	KAcc
	KNFT
	KAnc
	KImp
	KMulti
	KRestr
	KPlain = KEd | KAcc | KNFT | KAnc
	KNoImp = KPlain | KMulti | KRestr
	KAll   = KNoImp | KImp
)

// Addr draws an address of one of the kinds.
func (g *G) Addr(k AddrKind, l string) iotago.Address {
	var opts []AddrKind
	for _, x := range []AddrKind{KEd, KAcc, KNFT, KAnc, KImp, KRestr, KMulti} {
		if k&x != 0 {
			opts = append(opts, x)
		}
	}
	i := 0
	if len(opts) > 1 {
		i = g.Int(0, len(opts)-1, l+".kind")
		if (opts[i] == KMulti || opts[i] == KRestr) && g.Bool(l+".simple") {
			i = 0
		}
	}
	switch opts[i] {
	case KEd:
		a := iotago.Ed25519Address(g.B32(l))
		return &a
	case KAcc:
		a := iotago.AccountAddress(g.B32(l))
		return &a
	case KNFT:
		a := iotago.NFTAddress(g.B32(l))
		return &a
	case KAnc:
		a := iotago.AnchorAddress(g.B32(l))
		return &a
	case KImp:
		a := iotago.ImplicitAccountCreationAddress(g.B32(l))
		return &a
	case KMulti:
		return g.Multi(l)
	default:
		under := g.Addr(KPlain|KMulti, l+".u")
		mask := uint16(g.Int(0, 511, l+".caps"))
		return &iotago.RestrictedAddress{Address: under, AllowedCapabilities: CapsMask(mask)}
	}
}

// CapsMask is the minimal little-endian bit mask of a capability set.
func CapsMask(m uint16) iotago.AddressCapabilitiesBitMask {
	switch {
	case m == 0:
		return iotago.AddressCapabilitiesBitMask{}
	case m < 256:
		return iotago.AddressCapabilitiesBitMask{byte(m)}
	}
	return iotago.AddressCapabilitiesBitMask{byte(m), byte(m >> 8)}
}

// Multi draws a valid multi address.
func (g *G) Multi(l string) *iotago.MultiAddress {
	n := g.Int(2, 4, l+".n")
	if g.Rare(6, l+".big") {
		n = 10
	}
	seen := map[string]bool{}
	m := &iotago.MultiAddress{}
	sum := 0
	for i := 0; i < n; i++ {
		a := g.Addr(KPlain, l+".m")
		for seen[RefAddrID(a)] {
			b := [32]byte{}
			copy(b[:], Expand(uint64(len(seen))*977+uint64(sum), 32))
			e := iotago.Ed25519Address(b)
			a = &e
			sum += 100000
		}
		seen[RefAddrID(a)] = true
		m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: a, Weight: 1})
	}
	sum = 0
	for _, a := range m.Addresses {
		w := g.Int(1, 5, l+".w")
		if g.Rare(5, l+".wb") {
			w = 255
		}
		a.Weight = byte(w)
		sum += w
	}
	sort.Slice(m.Addresses, func(i, j int) bool {
		return RefAddrID(m.Addresses[i].Address) < RefAddrID(m.Addresses[j].Address)
	})
	m.Threshold = uint16(g.Int(1, sum, l+".t"))
	return m
}

// ---- identifiers

func (g *G) Slot(l string) uint32 { return g.U32(l) }

func slotID(b [32]byte, slot uint32) (r [36]byte) {
	copy(r[:], b[:])
	binary.LittleEndian.PutUint32(r[32:], slot)
	return
}

func (g *G) BlockID(l string) iotago.BlockID {
	return iotago.BlockID(slotID(g.B32(l), g.Slot(l+".s")))
}
func (g *G) CommitmentID(l string) iotago.CommitmentID {
	return iotago.CommitmentID(slotID(g.B32(l), g.Slot(l+".s")))
}
func (g *G) TxID(l string) iotago.TransactionID {
	return iotago.TransactionID(slotID(g.B32(l), g.Slot(l+".s")))
}
func (g *G) OutputID(l string) (o iotago.OutputID) {
	id := g.TxID(l)
	copy(o[:], id[:])
	binary.LittleEndian.PutUint16(o[36:], uint16(g.Int(0, 127, l+".i")))
	return
}

// U256 draws a number below 2^256.
func (g *G) U256(l string) *big.Int {
	switch g.Int(0, 4, l+"?") {
	case 0:
		return big.NewInt(int64(g.Int(0, 100, l)))
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(g.Int(1, 3, l))))
	case 2:
		return new(big.Int).SetBytes(Expand(rapid.Uint64().Draw(g.T, l), 32))
	default:
		return new(big.Int).SetUint64(g.U64(l))
	}
}

func (g *G) pos256(l string) *big.Int {
	v := g.U256(l)
	if v.Sign() == 0 {
		v = big.NewInt(1)
	}
	return v
}

// ---- features

func (g *G) metaMap(l string) map[string][]byte {
	n := g.Int(1, 3, l+".n")
	m := map[string][]byte{}
	for i := 0; i < n; i++ {
		k := rapid.StringOfN(rapid.RuneFrom([]rune(printable)), 0, 8, -1).Draw(g.T, l+".k")
		m[k] = g.Var(0, 20, l+".v")
	}
	if g.Rare(12, l+".large") {
		m["L"] = g.Var(0, 300, l+".lv")
	}
	return m
}

func (g *G) MetaFeat(l string) *iotago.MetadataFeature {
	e := iotago.MetadataFeatureEntries{}
	for k, v := range g.metaMap(l) {
		e[iotago.MetadataFeatureEntriesKey(k)] = v
	}
	return &iotago.MetadataFeature{Entries: e}
}

func (g *G) StateMetaFeat(l string) *iotago.StateMetadataFeature {
	e := iotago.StateMetadataFeatureEntries{}
	for k, v := range g.metaMap(l) {
		e[iotago.StateMetadataFeatureEntriesKey(k)] = v
	}
	return &iotago.StateMetadataFeature{Entries: e}
}

func (g *G) SenderFeat(l string) *iotago.SenderFeature {
	return &iotago.SenderFeature{Address: g.Addr(KAll, l)}
}
func (g *G) IssuerFeat(l string) *iotago.IssuerFeature {
	return &iotago.IssuerFeature{Address: g.Addr(KAll, l)}
}
func (g *G) TagFeat(l string) *iotago.TagFeature {
	if g.Rare(6, l+".max") {
		return &iotago.TagFeature{Tag: g.Var(64, 64, l)}
	}
	return &iotago.TagFeature{Tag: g.Var(1, 12, l)}
}

func (g *G) FoundryID(l string) (f iotago.FoundryID) {
	id := g.B32(l)
	f[0] = 8
	copy(f[1:], id[:])
	binary.LittleEndian.PutUint32(f[33:], g.U32(l+".sn"))
	return
}

func (g *G) NTFeat(l string) *iotago.NativeTokenFeature {
	return &iotago.NativeTokenFeature{ID: g.FoundryID(l), Amount: g.pos256(l + ".amt")}
}

func (g *G) BIKeys(l string) iotago.BlockIssuerKeys {
	n := g.Int(1, 4, l+".n")
	if g.Rare(30, l+".max") {
		n = 128
	}
	m := map[[32]byte]bool{}
	for i := 0; i < n; i++ {
		var b [32]byte
		copy(b[:], Expand(uint64(i)*31+uint64(g.Int(0, 1000, l)), 32))
		m[b] = true
	}
	var hs [][32]byte
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	var r iotago.BlockIssuerKeys
	for _, h := range hs {
		r = append(r, &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: h})
	}
	return r
}

func (g *G) BIFeat(l string) *iotago.BlockIssuerFeature {
	return &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(g.U32(l + ".exp")), BlockIssuerKeys: g.BIKeys(l)}
}

func (g *G) StakeFeat(l string) *iotago.StakingFeature {
	return &iotago.StakingFeature{StakedAmount: iotago.BaseToken(g.U64(l + ".amt")), FixedCost: iotago.Mana(g.U64(l + ".fc")), StartEpoch: iotago.EpochIndex(g.U32(l + ".s")), EndEpoch: iotago.EpochIndex(g.U32(l + ".e"))}
}

// ---- outputs

const printable = `!"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\]^_` + "`abcdefghijklmnopqrstuvwxyz{|}~"

// OKind enumerates output kinds by their wire type.
type OKind int

const (
	OBasic OKind = iota
	OAccount
	OAnchor
	OFoundry
	ONFT
	ODelegation
)

func (g *G) id32orZero(l string) (r [32]byte) {
	if g.Rare(4, l+".zero") {
		return
	}
	return g.B32(l)
}

// RawOutput draws a structurally valid output; the amounts are as drawn (deposit not ensured).
func (g *G) RawOutput(k OKind, l string) iotago.Output {
	switch k {
	case OBasic:
		o := &iotago.BasicOutput{Amount: iotago.BaseToken(g.U64(l + ".amt")), Mana: iotago.Mana(g.U64(l + ".mana"))}
		o.UnlockConditions = append(o.UnlockConditions, &iotago.AddressUnlockCondition{Address: g.Addr(KAll, l+".addr")})
		if g.Rare(3, l+".sdr") {
			o.UnlockConditions = append(o.UnlockConditions, g.SDR(l))
		}
		if g.Rare(3, l+".tl") {
			o.UnlockConditions = append(o.UnlockConditions, g.TL(l))
		}
		if g.Rare(3, l+".ex") {
			o.UnlockConditions = append(o.UnlockConditions, g.EX(l))
		}
		if g.Rare(3, l+".sender") {
			o.Features = append(o.Features, g.SenderFeat(l+".sf"))
		}
		if g.Rare(3, l+".meta") {
			o.Features = append(o.Features, g.MetaFeat(l+".mf"))
		}
		if g.Rare(3, l+".tag") {
			o.Features = append(o.Features, g.TagFeat(l+".tf"))
		}
		if g.Rare(3, l+".nt") {
			o.Features = append(o.Features, g.NTFeat(l+".ntf"))
		}
		return o
	case OAccount:
		o := &iotago.AccountOutput{Amount: iotago.BaseToken(g.U64(l + ".amt")), Mana: iotago.Mana(g.U64(l + ".mana")), AccountID: g.id32orZero(l + ".id"), FoundryCounter: g.U32(l + ".fc")}
		o.UnlockConditions = append(o.UnlockConditions, &iotago.AddressUnlockCondition{Address: g.Addr(KNoImp, l+".addr")})
		if g.Rare(3, l+".sender") {
			o.Features = append(o.Features, g.SenderFeat(l+".sf"))
		}
		if g.Rare(3, l+".meta") {
			o.Features = append(o.Features, g.MetaFeat(l+".mf"))
		}
		bi := g.Bool(l + ".bi")
		if bi {
			o.Features = append(o.Features, g.BIFeat(l+".bif"))
		}
		if bi && g.Bool(l+".st") {
			o.Features = append(o.Features, g.StakeFeat(l+".stf"))
		}
		if g.Rare(3, l+".iss") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.IssuerFeat(l+".if"))
		}
		if g.Rare(3, l+".immeta") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.MetaFeat(l+".imf"))
		}
		return o
	case OAnchor:
		o := &iotago.AnchorOutput{Amount: iotago.BaseToken(g.U64(l + ".amt")), Mana: iotago.Mana(g.U64(l + ".mana")), AnchorID: g.id32orZero(l + ".id"), StateIndex: g.U32(l + ".si")}
		o.UnlockConditions = append(o.UnlockConditions, &iotago.StateControllerAddressUnlockCondition{Address: g.Addr(KNoImp, l+".sc")}, &iotago.GovernorAddressUnlockCondition{Address: g.Addr(KNoImp, l+".gov")})
		if g.Rare(3, l+".meta") {
			o.Features = append(o.Features, g.MetaFeat(l+".mf"))
		}
		if g.Rare(3, l+".smeta") {
			o.Features = append(o.Features, g.StateMetaFeat(l+".smf"))
		}
		if g.Rare(3, l+".iss") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.IssuerFeat(l+".if"))
		}
		if g.Rare(3, l+".immeta") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.MetaFeat(l+".imf"))
		}
		return o
	case OFoundry:
		a := iotago.AccountAddress(g.B32(l + ".acc"))
		o := &iotago.FoundryOutput{Amount: iotago.BaseToken(g.U64(l + ".amt")), SerialNumber: g.U32(l + ".sn"), TokenScheme: g.Scheme(l + ".ts")}
		o.UnlockConditions = append(o.UnlockConditions, &iotago.ImmutableAccountUnlockCondition{Address: &a})
		if g.Rare(3, l+".meta") {
			o.Features = append(o.Features, g.MetaFeat(l+".mf"))
		}
		if g.Rare(3, l+".nt") {
			o.Features = append(o.Features, g.NTFeat(l+".ntf"))
		}
		if g.Rare(3, l+".immeta") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.MetaFeat(l+".imf"))
		}
		return o
	case ONFT:
		o := &iotago.NFTOutput{Amount: iotago.BaseToken(g.U64(l + ".amt")), Mana: iotago.Mana(g.U64(l + ".mana")), NFTID: g.id32orZero(l + ".id")}
		o.UnlockConditions = append(o.UnlockConditions, &iotago.AddressUnlockCondition{Address: g.Addr(KNoImp, l+".addr")})
		if g.Rare(3, l+".sdr") {
			o.UnlockConditions = append(o.UnlockConditions, g.SDR(l))
		}
		if g.Rare(3, l+".tl") {
			o.UnlockConditions = append(o.UnlockConditions, g.TL(l))
		}
		if g.Rare(3, l+".ex") {
			o.UnlockConditions = append(o.UnlockConditions, g.EX(l))
		}
		if g.Rare(3, l+".sender") {
			o.Features = append(o.Features, g.SenderFeat(l+".sf"))
		}
		if g.Rare(3, l+".meta") {
			o.Features = append(o.Features, g.MetaFeat(l+".mf"))
		}
		if g.Rare(3, l+".tag") {
			o.Features = append(o.Features, g.TagFeat(l+".tf"))
		}
		if g.Rare(3, l+".iss") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.IssuerFeat(l+".if"))
		}
		if g.Rare(3, l+".immeta") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, g.MetaFeat(l+".imf"))
		}
		return o
	default:
		v := iotago.AccountAddress(g.B32(l + ".val"))
		return &iotago.DelegationOutput{Amount: iotago.BaseToken(g.U64(l + ".amt")), DelegatedAmount: iotago.BaseToken(g.U64(l + ".damt")), DelegationID: g.id32orZero(l + ".id"), ValidatorAddress: &v,
			StartEpoch: iotago.EpochIndex(g.U32(l + ".se")), EndEpoch: iotago.EpochIndex(g.U32(l + ".ee")),
			UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.Addr(KNoImp, l+".addr")}}}
	}
}

func (g *G) SDR(l string) *iotago.StorageDepositReturnUnlockCondition {
	return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: g.Addr(KNoImp, l+".ra"), Amount: iotago.BaseToken(g.U64(l + ".ramt"))}
}
func (g *G) TL(l string) *iotago.TimelockUnlockCondition {
	return &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(max(1, g.U32(l+".tls")))}
}
func (g *G) EX(l string) *iotago.ExpirationUnlockCondition {
	return &iotago.ExpirationUnlockCondition{ReturnAddress: g.Addr(KNoImp, l+".era"), Slot: iotago.SlotIndex(max(1, g.U32(l+".exs")))}
}

// Scheme draws a syntactically valid token scheme.
func (g *G) Scheme(l string) *iotago.SimpleTokenScheme {
	maxS := g.pos256(l + ".max")
	minted := new(big.Int)
	switch g.Int(0, 2, l+".m?") {
	case 1:
		minted.Set(maxS)
	case 2:
		minted.Mod(g.U256(l+".m"), new(big.Int).Add(maxS, big.NewInt(1)))
	}
	melted := new(big.Int)
	switch g.Int(0, 2, l+".e?") {
	case 1:
		melted.Set(minted)
	case 2:
		melted.Mod(g.U256(l+".e"), new(big.Int).Add(minted, big.NewInt(1)))
	}
	return &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: melted, MaximumSupply: maxS}
}

// Output draws an output that satisfies every per-output syntactic rule (amount at least its deposit + extra).
func (g *G) Output(k OKind, l string) iotago.Output {
	o := g.RawOutput(k, l)
	g.Fix(o, l)
	return o
}

// Fix makes a raw output satisfy the per-output syntactic rules.
func (g *G) Fix(o iotago.Output, l string) {
	if b, ok := o.(*iotago.BasicOutput); ok {
		// implicit account creation addresses receive no timelock, expiration or storage return
		if _, ok := b.UnlockConditions.MustSet().Address().Address.(*iotago.ImplicitAccountCreationAddress); ok {
			b.UnlockConditions = b.UnlockConditions[:1]
		}
	}
	// permissions of restricted addresses
	need := RequiredCaps(o)
	for _, a := range capAddrs(o) {
		if r, ok := a.(*iotago.RestrictedAddress); ok {
			r.AllowedCapabilities = CapsMask(capsOf(r) | need)
		}
	}
	capMana := func(m *iotago.Mana) { *m = iotago.Mana(uint64(*m) % (1 << 50)) }
	ex := g.U64Max(1<<30, l+".extra")
	switch o := o.(type) {
	case *iotago.BasicOutput:
		capMana(&o.Mana)
		fixSDR(g, o.UnlockConditions.MustSet(), &o.Amount, ex, l)
		o.Amount = atLeast(RefMinDeposit(g.E.Spec, o), uint64(o.Amount), ex)
	case *iotago.NFTOutput:
		capMana(&o.Mana)
		fixSDR(g, o.UnlockConditions.MustSet(), &o.Amount, ex, l)
		o.Amount = atLeast(RefMinDeposit(g.E.Spec, o), uint64(o.Amount), ex)
	case *iotago.AccountOutput:
		capMana(&o.Mana)
		if o.AccountID == (iotago.AccountID{}) {
			o.FoundryCounter = 0
		}
		o.Amount = atLeast(RefMinDeposit(g.E.Spec, o), 0, ex)
		if s := o.FeatureSet().Staking(); s != nil {
			s.StakedAmount = iotago.BaseToken(g.U64Max(uint64(o.Amount), l+".stk"))
		}
		if a, ok := o.UnlockConditions.MustSet().Address().Address.(*iotago.AccountAddress); ok && iotago.AccountID(*a) == o.AccountID {
			o.AccountID[0] ^= 1
		}
	case *iotago.AnchorOutput:
		capMana(&o.Mana)
		if o.AnchorID == (iotago.AnchorID{}) {
			o.StateIndex = 0
		}
		o.Amount = atLeast(RefMinDeposit(g.E.Spec, o), 0, ex)
		for _, a := range []iotago.Address{o.UnlockConditions.MustSet().StateControllerAddress().Address, o.UnlockConditions.MustSet().GovernorAddress().Address} {
			if a, ok := a.(*iotago.AnchorAddress); ok && iotago.AnchorID(*a) == o.AnchorID {
				a[1] ^= 1
			}
		}
	case *iotago.FoundryOutput:
		if nt := o.FeatureSet().NativeToken(); nt != nil {
			nt.ID = RefFoundryID(o)
		}
		o.Amount = atLeast(RefMinDeposit(g.E.Spec, o), 0, ex)
	case *iotago.DelegationOutput:
		o.Amount = atLeast(RefMinDeposit(g.E.Spec, o), 0, ex)
	}
	if n, ok := o.(*iotago.NFTOutput); ok {
		if a, ok := n.UnlockConditions.MustSet().Address().Address.(*iotago.NFTAddress); ok && iotago.NFTID(*a) == n.NFTID {
			n.NFTID[0] ^= 1
		}
	}
}

func atLeast(minDep *big.Int, _ uint64, extra uint64) iotago.BaseToken {
	v := minDep.Uint64() + extra
	if v == 0 {
		v = 1
	}
	return iotago.BaseToken(v)
}

func fixSDR(g *G, ucs iotago.UnlockConditionSet, _ *iotago.BaseToken, ex uint64, l string) {
	if s := ucs.StorageDepositReturn(); s != nil {
		// minimum return deposit never exceeds the minimum deposit of the output itself plus nothing; use exactly it or a bit more within extra
		m := RefMinReturn(g.E.Spec, s.ReturnAddress).Uint64()
		s.Amount = iotago.BaseToken(m + g.U64Max(ex, l+".sdrx"))
	}
}

// ---- transactions

// TxOpt steers transaction generation.
type TxOpt struct {
	MaxIn, MaxOut int
}

// Tx draws a syntactically valid transaction (no execution semantics) with unlocks.
func (g *G) Tx(opt TxOpt) *iotago.SignedTransaction {
	api := g.E.API()
	if opt.MaxIn == 0 {
		opt = TxOpt{4, 4}
	}
	es := &iotago.TransactionEssence{NetworkID: RefNetworkID(g.E.Name), CreationSlot: iotago.SlotIndex(g.U32("cslot")), Capabilities: iotago.TransactionCapabilitiesBitMask{}}
	if m := g.Int(0, 63, "txcaps"); m != 0 {
		es.Capabilities = iotago.TransactionCapabilitiesBitMask{byte(m)}
	}
	nIn := g.Int(1, opt.MaxIn, "nin")
	seen := map[iotago.OutputID]bool{}
	for i := 0; i < nIn; i++ {
		oid := g.OutputID("in")
		for seen[oid] {
			oid[5]++
		}
		seen[oid] = true
		es.Inputs = append(es.Inputs, UTXOInput(oid))
	}
	nOut := g.Int(1, opt.MaxOut, "nout")
	var outs iotago.TxEssenceOutputs
	needC := false
	chains := map[string]bool{}
	for i := 0; i < nOut; i++ {
		o := g.Output(OKind(g.Int(0, 5, "ok")), "o")
		if id, ok := RefChainID(o); ok && chains[id] {
			bumpChain(o, i)
			id, _ = RefChainID(o)
			chains[id] = true
		} else if ok {
			chains[id] = true
		}
		if needsCommitment(o) {
			needC = true
		}
		outs = append(outs, o)
	}
	if needC || g.Bool("ci") {
		es.ContextInputs = append(es.ContextInputs, &iotago.CommitmentInput{CommitmentID: g.CommitmentID("cid")})
		nb := g.Int(0, 2, "nbic")
		var ids [][32]byte
		m := map[[32]byte]bool{}
		for i := 0; i < nb; i++ {
			b := g.B32("bic")
			if !m[b] {
				m[b] = true
				ids = append(ids, b)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
		for _, b := range ids {
			es.ContextInputs = append(es.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: b})
		}
		for i := 0; i < nIn; i++ {
			if g.Rare(3, "rew") {
				es.ContextInputs = append(es.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
			}
		}
	}
	var al [][32]byte
	m := map[[32]byte]bool{}
	for i, n := 0, g.Int(0, 3, "nal"); i < n; i++ {
		b := g.B32("al")
		if !m[b] {
			m[b] = true
			al = append(al, b)
		}
	}
	sort.Slice(al, func(i, j int) bool { return bytes.Compare(al[i][:], al[j][:]) < 0 })
	for _, b := range al {
		es.Allotments = append(es.Allotments, &iotago.Allotment{AccountID: b, Mana: iotago.Mana(g.U64Max(1<<40, "alm"))})
	}
	if g.Rare(3, "pl") {
		es.Payload = g.Tagged("txp")
	}
	return &iotago.SignedTransaction{API: api, Transaction: &iotago.Transaction{API: api, TransactionEssence: es, Outputs: outs}, Unlocks: g.Unlocks(nIn)}
}

// Tagged draws a tagged data payload.
func (g *G) Tagged(l string) *iotago.TaggedData {
	td := &iotago.TaggedData{Tag: g.Var(0, 10, l+".tag"), Data: g.Var(0, 40, l+".data")}
	if g.Rare(10, l+".bigt") {
		td.Tag = g.Var(64, 64, l+".tag2")
	}
	if g.Rare(25, l+".bigd") {
		td.Data = g.Var(8192, 8192, l+".data2")
	}
	return td
}

// UTXOInput builds the input referencing an output.
func UTXOInput(o iotago.OutputID) *iotago.UTXOInput {
	in := &iotago.UTXOInput{TransactionOutputIndex: binary.LittleEndian.Uint16(o[36:])}
	copy(in.TransactionID[:], o[:36])
	return in
}

func needsCommitment(o iotago.Output) bool {
	switch o := o.(type) {
	case *iotago.DelegationOutput:
		return true
	case *iotago.AccountOutput:
		for _, f := range o.Features {
			switch f.(type) {
			case *iotago.BlockIssuerFeature, *iotago.StakingFeature:
				return true
			}
		}
	}
	return false
}

func bumpChain(o iotago.Output, i int) {
	var b [32]byte
	copy(b[:], Expand(uint64(0xc0ffee+i), 32))
	switch o := o.(type) {
	case *iotago.AccountOutput:
		o.AccountID = b
	case *iotago.AnchorOutput:
		o.AnchorID = b
	case *iotago.NFTOutput:
		o.NFTID = b
	case *iotago.DelegationOutput:
		o.DelegationID = b
	case *iotago.FoundryOutput:
		a := iotago.AccountAddress(b)
		o.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &a}}
		if nt := o.FeatureSet().NativeToken(); nt != nil {
			nt.ID = RefFoundryID(o)
		}
	}
}

// Sig draws an arbitrary signature of pooled key i.
func (g *G) Sig(i int) *iotago.Ed25519Signature {
	s := &iotago.Ed25519Signature{}
	if i < len(keys) {
		copy(s.PublicKey[:], keys[i].Priv.Public().(stded.PublicKey))
	} else {
		copy(s.PublicKey[:], Expand(uint64(i), 32))
	}
	copy(s.Signature[:], Expand(rapid.Uint64().Draw(g.T, "sig"), 64))
	return s
}

// Unlocks draws n syntactically valid unlocks.
func (g *G) Unlocks(n int) iotago.Unlocks {
	var us iotago.Unlocks
	used := 0
	var sigIdx, refIdx []int // indices of signature unlocks, of chainable ref unlocks
	var multiIdx []int
	for i := 0; i < n; i++ {
		k := g.Int(0, 6, "uk")
		switch {
		case k <= 1 || len(sigIdx)+len(multiIdx) == 0 && k != 6:
			us = append(us, &iotago.SignatureUnlock{Signature: g.Sig(used)})
			used++
			sigIdx = append(sigIdx, i)
		case k == 2 || k == 3 && len(sigIdx)+len(multiIdx) > 0:
			base := append(append([]int{}, sigIdx...), multiIdx...)
			us = append(us, &iotago.ReferenceUnlock{Reference: uint16(base[g.Int(0, len(base)-1, "ub")])})
		case k <= 5:
			base := append(append(append([]int{}, sigIdx...), multiIdx...), refIdx...)
			r := uint16(base[g.Int(0, len(base)-1, "ub")])
			switch g.Int(0, 2, "uc") {
			case 0:
				us = append(us, &iotago.AccountUnlock{Reference: r})
			case 1:
				us = append(us, &iotago.AnchorUnlock{Reference: r})
			default:
				us = append(us, &iotago.NFTUnlock{Reference: r})
			}
			refIdx = append(refIdx, i)
		default:
			m := &iotago.MultiUnlock{}
			c := g.Int(2, 5, "mn")
			if g.Rare(8, "mn10") {
				c = g.Int(9, 10, "mn9")
			}
			for j := 0; j < c; j++ {
				switch q := g.Int(0, 2, "mk"); {
				case q == 0 || j == 0:
					m.Unlocks = append(m.Unlocks, &iotago.SignatureUnlock{Signature: g.Sig(used)})
					used++
				case q == 1 && len(sigIdx) > 0:
					m.Unlocks = append(m.Unlocks, &iotago.ReferenceUnlock{Reference: uint16(sigIdx[g.Int(0, len(sigIdx)-1, "mr")])})
				case q == 2 && len(refIdx) > 0:
					m.Unlocks = append(m.Unlocks, &iotago.AccountUnlock{Reference: uint16(refIdx[g.Int(0, len(refIdx)-1, "mr")])})
				default:
					m.Unlocks = append(m.Unlocks, &iotago.EmptyUnlock{})
				}
			}
			us = append(us, m)
			multiIdx = append(multiIdx, i)
		}
	}
	return us
}

// ---- blocks

// ParentSets draws sorted parents: strong, weak, shallow-like; weak disjoint from both others, shallow disjoint from strong.
func (g *G) ParentSets(max int) (s, w, sh iotago.BlockIDs) {
	lim := max
	if lim > 5 && !g.Rare(8, "pmax") {
		lim = 4
	}
	seen := map[iotago.BlockID]bool{}
	draw := func(lo int, l string) iotago.BlockIDs {
		var r iotago.BlockIDs
		for i, n := 0, g.Int(lo, lim, l+".n"); i < n; i++ {
			b := g.BlockID(l)
			for seen[b] {
				b[7]++
			}
			seen[b] = true
			r = append(r, b)
		}
		SortIDs(r)
		return r
	}
	return draw(1, "sp"), draw(0, "wp"), draw(0, "shp")
}

// SortIDs sorts block IDs bytewise.
func SortIDs(r iotago.BlockIDs) {
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i][:], r[j][:]) < 0 })
}

// Block draws a syntactically valid block (the signature is arbitrary).
func (g *G) Block() *iotago.Block {
	return g.BlockWith(g.Int(0, 4, "bk"))
}

// BlockWith draws a block: 0 validation, 1 no payload, 2 tagged data, 3 candidacy, 4 transaction.
func (g *G) BlockWith(kind int) *iotago.Block {
	api := g.E.API()
	s := g.E.Spec
	// block slot from time
	slot := uint64(s.GenesisSlot) + uint64(s.MaxCA) + uint64(g.Int(1, 100000, "bslot"))
	if g.Rare(4, "early") {
		slot = uint64(s.GenesisSlot) + uint64(g.Int(1, int(s.MaxCA), "bslot2"))
	}
	// slot k (k>=1 above genesis) covers [gen+(k-1)*dur, gen+k*dur)
	ns := s.GenesisUnix*1e9 + int64(slot-uint64(s.GenesisSlot)-1)*int64(s.SlotDur)*1e9 + int64(g.U64Max(uint64(s.SlotDur)*1e9-1, "off"))
	lo := uint64(s.GenesisSlot)
	if slot > uint64(s.MaxCA)+lo {
		lo = slot - uint64(s.MaxCA)
	}
	hi := lo
	if slot >= uint64(s.MinCA)+lo {
		hi = slot - uint64(s.MinCA)
	}
	cslot := lo
	if hi > lo {
		cslot = lo + g.U64Max(hi-lo, "cage")
	}
	c := iotago.CommitmentID(slotID(g.B32("scid"), uint32(cslot)))
	b := &iotago.Block{API: api, Header: iotago.BlockHeader{ProtocolVersion: iotago.Version(s.Version), NetworkID: RefNetworkID(s.Name), IssuingTime: time.Unix(0, ns).UTC(),
		SlotCommitmentID: c, LatestFinalizedSlot: iotago.SlotIndex(g.U64Max(cslot, "lfs")), IssuerID: g.B32("issuer")}, Signature: g.Sig(g.Int(0, KeyN-1, "bsig"))}
	if kind == 0 {
		st, w, sh := g.ParentSets(50)
		b.Body = &iotago.ValidationBlockBody{API: api, StrongParents: st, WeakParents: w, ShallowLikeParents: sh, HighestSupportedVersion: iotago.Version(s.Version + byte(g.Int(0, 3, "hsv"))), ProtocolParametersHash: g.B32("pph")}
		return b
	}
	st, w, sh := g.ParentSets(8)
	body := &iotago.BasicBlockBody{API: api, StrongParents: st, WeakParents: w, ShallowLikeParents: sh, MaxBurnedMana: iotago.Mana(g.U64("mbm"))}
	switch kind {
	case 2:
		body.Payload = g.Tagged("bpl")
	case 3:
		body.Payload = &iotago.CandidacyAnnouncement{}
	case 4:
		tx := g.Tx(TxOpt{3, 3})
		tx.Transaction.CreationSlot = iotago.SlotIndex(g.U64Max(slot, "txc"))
		if ci := tx.Transaction.CommitmentInput(); ci != nil {
			clo := uint64(s.GenesisSlot)
			if slot > uint64(s.MaxCA)+clo {
				clo = slot - uint64(s.MaxCA)
			}
			chi := clo
			if slot >= uint64(s.MinCA)+clo {
				chi = slot - uint64(s.MinCA)
			}
			v := clo
			if chi > clo {
				v = clo + g.U64Max(chi-clo, "tca")
			}
			// must not be more recent than the header's commitment
			v = min(v, cslot)
			ci.CommitmentID = iotago.CommitmentID(slotID(g.B32("tcid"), uint32(v)))
			if v == cslot {
				ci.CommitmentID = c
			}
		}
		body.Payload = tx
	}
	b.Body = body
	return b
}

// Commitment draws any commitment.
func (g *G) Commitment() *iotago.Commitment {
	return &iotago.Commitment{ProtocolVersion: iotago.Version(g.E.Version), Slot: iotago.SlotIndex(g.U32("cs")), PreviousCommitmentID: g.CommitmentID("prev"), RootsID: g.B32("roots"), CumulativeWeight: g.U64("cw"), ReferenceManaCost: iotago.Mana(g.U64("rmc"))}
}

// Text draws short text including characters that need escaping.
func (g *G) Text(l string) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune("ab/:.-09 \"\\<&é\u2028\n\x01😀")), 0, 12, 60).Draw(g.T, l)
}
