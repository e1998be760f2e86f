package kit

import (
	"reflect"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
)

// Kind describes one family of protocol objects.
type Kind struct {
	Name string
	Gen  func(g *G) any
	// New returns a pointer to decode into; Get turns the decoded pointer into the object.
	New func() any
	Get func(p any) any
	Ref func(o any) []byte
	// ID gives an identity of the object computed by the library (nil if it has none).
	ID func(o any) (string, error)
	// Size reports the library's size (nil if it has none).
	Size func(o any) int
}

type sizer interface{ Size() int }

func size(o any) int { return o.(sizer).Size() }

func ident(p any) any { return p }

func deref[T any](p any) any { return any(*(p.(*T))) }

// iface builds a kind decoded through an interface type.
func iface[T any](name string, gen func(g *G) any, ref func(o any) []byte) Kind {
	return Kind{Name: name, Gen: gen, New: func() any { return new(T) }, Get: deref[T], Ref: ref}
}

func conc[T any](name string, gen func(g *G) any, ref func(o any) []byte) Kind {
	return Kind{Name: name, Gen: gen, New: func() any { return new(T) }, Get: ident, Ref: ref, Size: size}
}

func refOut(o any) []byte  { return EncOutput(o.(iotago.Output)) }
func refAddr(o any) []byte { return EncAddr(o.(iotago.Address)) }
func refUnl(o any) []byte  { return EncUnlock(o.(iotago.Unlock)) }
func refFeat(o any) []byte { return EncFeat(o.(iotago.Feature)) }
func refUC(o any) []byte   { return EncUC(o.(iotago.UnlockCondition)) }
func refCtx(o any) []byte  { return EncCtxInput(o.(iotago.ContextInput)) }

func hexID[T interface{ ToHex() string }](id T, err error) (string, error) {
	if err != nil {
		return "", err
	}
	return id.ToHex(), nil
}

// Kinds is the table of all binary-codable objects.
var Kinds []Kind

func init() {
	names := []string{"basic", "account", "anchor", "foundry", "nft", "delegation"}
	for k := OBasic; k <= ODelegation; k++ {
		kk := iface[iotago.TxEssenceOutput]("output-"+names[k], func(g *G) any {
			if g.Bool("raw") {
				return g.RawOutput(k, "o")
			}
			return g.Output(k, "o")
		}, refOut)
		kk.Size = size
		Kinds = append(Kinds, kk)
	}
	akinds := map[string]AddrKind{"ed25519": KEd, "account": KAcc, "nft": KNFT, "anchor": KAnc, "implicit": KImp, "multi": KMulti, "restricted": KRestr}
	for _, n := range []string{"ed25519", "account", "nft", "anchor", "implicit", "multi", "restricted"} {
		m := akinds[n]
		kk := iface[iotago.Address]("address-"+n, func(g *G) any { return g.Addr(m, "a") }, refAddr)
		kk.ID = func(o any) (string, error) { return string(o.(iotago.Address).ID()), nil }
		kk.Size = size
		Kinds = append(Kinds, kk)
	}
	un := []string{"signature", "reference", "account", "anchor", "nft", "multi", "empty"}
	for i, n := range un {
		kk := iface[iotago.Unlock]("unlock-"+n, func(g *G) any {
			r := uint16(g.Int(0, 127, "r"))
			switch i {
			case 0:
				return &iotago.SignatureUnlock{Signature: g.Sig(g.Int(0, 20, "k"))}
			case 1:
				return &iotago.ReferenceUnlock{Reference: r}
			case 2:
				return &iotago.AccountUnlock{Reference: r}
			case 3:
				return &iotago.AnchorUnlock{Reference: r}
			case 4:
				return &iotago.NFTUnlock{Reference: r}
			case 5:
				for {
					for _, u := range g.Unlocks(4) {
						if m, ok := u.(*iotago.MultiUnlock); ok {
							return m
						}
					}
					return &iotago.MultiUnlock{Unlocks: []iotago.Unlock{&iotago.SignatureUnlock{Signature: g.Sig(g.Int(0, 20, "k"))}, &iotago.ReferenceUnlock{Reference: r}, &iotago.EmptyUnlock{}, &iotago.NFTUnlock{Reference: r}}}
				}
			}
			return &iotago.EmptyUnlock{}
		}, refUnl)
		kk.Size = size
		Kinds = append(Kinds, kk)
	}
	Kinds = append(Kinds,
		conc[iotago.SenderFeature]("feat-sender", func(g *G) any { return g.SenderFeat("f") }, refFeat),
		conc[iotago.IssuerFeature]("feat-issuer", func(g *G) any { return g.IssuerFeat("f") }, refFeat),
		conc[iotago.MetadataFeature]("feat-metadata", func(g *G) any { return g.MetaFeat("f") }, refFeat),
		conc[iotago.StateMetadataFeature]("feat-state-metadata", func(g *G) any { return g.StateMetaFeat("f") }, refFeat),
		conc[iotago.TagFeature]("feat-tag", func(g *G) any { return g.TagFeat("f") }, refFeat),
		conc[iotago.NativeTokenFeature]("feat-nt", func(g *G) any { return g.NTFeat("f") }, refFeat),
		conc[iotago.BlockIssuerFeature]("feat-bi", func(g *G) any { return g.BIFeat("f") }, refFeat),
		conc[iotago.StakingFeature]("feat-staking", func(g *G) any { return g.StakeFeat("f") }, refFeat),
		conc[iotago.AddressUnlockCondition]("uc-address", func(g *G) any { return &iotago.AddressUnlockCondition{Address: g.Addr(KAll, "a")} }, refUC),
		conc[iotago.StorageDepositReturnUnlockCondition]("uc-sdr", func(g *G) any { return g.SDR("u") }, refUC),
		conc[iotago.TimelockUnlockCondition]("uc-timelock", func(g *G) any { return g.TL("u") }, refUC),
		conc[iotago.ExpirationUnlockCondition]("uc-expiration", func(g *G) any { return g.EX("u") }, refUC),
		conc[iotago.StateControllerAddressUnlockCondition]("uc-state", func(g *G) any { return &iotago.StateControllerAddressUnlockCondition{Address: g.Addr(KNoImp, "a")} }, refUC),
		conc[iotago.GovernorAddressUnlockCondition]("uc-governor", func(g *G) any { return &iotago.GovernorAddressUnlockCondition{Address: g.Addr(KNoImp, "a")} }, refUC),
		conc[iotago.ImmutableAccountUnlockCondition]("uc-immacc", func(g *G) any {
			a := iotago.AccountAddress(g.B32("a"))
			return &iotago.ImmutableAccountUnlockCondition{Address: &a}
		}, refUC),
		conc[iotago.CommitmentInput]("ctx-commitment", func(g *G) any { return &iotago.CommitmentInput{CommitmentID: g.CommitmentID("c")} }, refCtx),
		conc[iotago.BlockIssuanceCreditInput]("ctx-bic", func(g *G) any { return &iotago.BlockIssuanceCreditInput{AccountID: g.B32("c")} }, refCtx),
		conc[iotago.RewardInput]("ctx-reward", func(g *G) any { return &iotago.RewardInput{Index: uint16(g.Int(0, 65535, "c"))} }, refCtx),
	)
	Kinds = append(Kinds, iface[iotago.TokenScheme]("token-scheme", func(g *G) any { return g.Scheme("s") }, func(o any) []byte { return EncScheme(o.(iotago.TokenScheme)) }))
	Kinds[len(Kinds)-1].Size = size
	kk := conc[iotago.Commitment]("commitment", func(g *G) any { return g.Commitment() }, func(o any) []byte { return EncCommitment(o.(*iotago.Commitment)) })
	kk.ID = func(o any) (string, error) { return hexID(o.(*iotago.Commitment).ID()) }
	kk.Size = nil
	Kinds = append(Kinds, kk)
	kk = conc[iotago.Block]("block", func(g *G) any { return g.Block() }, func(o any) []byte { return EncBlock(o.(*iotago.Block)) })
	kk.ID = func(o any) (string, error) { return hexID(o.(*iotago.Block).ID()) }
	Kinds = append(Kinds, kk)
	kk = conc[iotago.SignedTransaction]("signedtx", func(g *G) any { return g.Tx(TxOpt{}) }, func(o any) []byte { return EncSignedTx(o.(*iotago.SignedTransaction)) })
	kk.ID = func(o any) (string, error) {
		a, err := hexID(o.(*iotago.SignedTransaction).ID())
		if err != nil {
			return "", err
		}
		b, err := hexID(o.(*iotago.SignedTransaction).Transaction.ID())
		return a + b, err
	}
	Kinds = append(Kinds, kk)
	kk = conc[iotago.Transaction]("tx", func(g *G) any { return g.Tx(TxOpt{}).Transaction }, func(o any) []byte { return EncTx(o.(*iotago.Transaction)) })
	kk.ID = func(o any) (string, error) { return hexID(o.(*iotago.Transaction).ID()) }
	Kinds = append(Kinds, kk)
	kk = conc[iotago.Attestation]("attestation", func(g *G) any { return Attest(g.E, g.Block()) }, func(o any) []byte { return EncAttestation(o.(*iotago.Attestation)) })
	kk.ID = func(o any) (string, error) { return hexID(o.(*iotago.Attestation).BlockID()) }
	kk.Size = nil
	Kinds = append(Kinds, kk)
	Kinds = append(Kinds,
		conc[iotago.TaggedData]("tagged-data", func(g *G) any { return g.Tagged("t") }, func(o any) []byte { return EncTagged(o.(*iotago.TaggedData)) }),
		conc[iotago.CandidacyAnnouncement]("candidacy", func(g *G) any { return &iotago.CandidacyAnnouncement{} }, func(o any) []byte { return []byte{2} }),
	)
	kk = iface[iotago.Signature]("signature", func(g *G) any { return g.Sig(g.Int(0, 30, "k")) }, func(o any) []byte { return EncSig(o.(iotago.Signature)) })
	kk.Size = size
	Kinds = append(Kinds, kk)
	kk = iface[iotago.ProtocolParameters]("protocol-parameters", func(g *G) any { return g.Params().Params() }, func(o any) []byte { return EncParams(o.(iotago.ProtocolParameters)) })
	kk.ID = func(o any) (string, error) { return hexID(o.(iotago.ProtocolParameters).Hash()) }
	Kinds = append(Kinds, kk)
	kk = conc[iotago.Roots]("roots", func(g *G) any { return g.Roots() }, func(o any) []byte {
		r := o.(*iotago.Roots)
		return cat(r.TangleRoot[:], r.StateMutationRoot[:], r.StateRoot[:], r.AccountRoot[:], r.AttestationsRoot[:], r.CommitteeRoot[:], r.RewardsRoot[:], r.ProtocolParametersHash[:])
	})
	kk.Size = nil
	kk.ID = func(o any) (string, error) { return o.(*iotago.Roots).ID().ToHex(), nil }
	Kinds = append(Kinds, kk)
}

// Roots draws commitment roots.
func (g *G) Roots() *iotago.Roots {
	return &iotago.Roots{TangleRoot: g.B32("r1"), StateMutationRoot: g.B32("r2"), StateRoot: g.B32("r3"), AccountRoot: g.B32("r4"), AttestationsRoot: g.B32("r5"), CommitteeRoot: g.B32("r6"), RewardsRoot: g.B32("r7"), ProtocolParametersHash: g.B32("r8")}
}

// Attest builds the attestation of a block without library help.
func Attest(e *Env, b *iotago.Block) *iotago.Attestation {
	return &iotago.Attestation{API: e.API(), Header: b.Header, BodyHash: Blake(EncBody(b.Body)), Signature: b.Signature}
}

// Params draws protocol parameters around the pool.
func (g *G) Params() Spec {
	s := Envs()[g.Int(0, len(Envs())-1, "penv")].Spec
	s.Name = rapid.StringMatching(`[a-z0-9 -]{0,20}`).Draw(g.T, "name")
	s.HRP = rapid.StringMatching(`[a-z]{1,10}`).Draw(g.T, "hrp")
	s.Version = byte(g.Int(3, 255, "ver"))
	s.StorageCost = g.U64("sc")
	s.FactorData = byte(g.Int(0, 255, "fd"))
	s.OffOutput, s.OffKey, s.OffStaking, s.OffDelegation = g.U64("o1"), g.U64("o2"), g.U64("o3"), g.U64("o4")
	s.GenesisSlot = g.U32("gs")
	s.GenesisUnix = int64(g.U64("gu"))
	s.MinRMC, s.RMCInc, s.RMCDec = g.U64("m1"), g.U64("m2"), g.U64("m3")
	s.MaxBuf, s.MaxValBuf = g.U32("mb"), g.U32("mvb")
	s.Unbonding, s.Punish = g.U32("ub"), g.U32("pu")
	s.SigWindow, s.SigRatio, s.SigOff = byte(g.Int(0, 255, "w1")), byte(g.Int(0, 255, "w2")), byte(g.Int(0, 255, "w3"))
	s.Retention = uint16(g.Int(0, 65535, "ret"))
	s.Committee, s.ChainSwitch = byte(g.Int(0, 255, "com")), byte(g.Int(0, 255, "csw"))
	s.LiveLow = uint16(g.Int(0, int(s.LiveUp), "ll"))
	w := func(l string) iotago.WorkScore { return iotago.WorkScore(g.Int(0, 1000, l)) }
	s.WS = iotago.WorkScoreParameters{DataByte: w("ws1") / 10, Block: w("ws2"), Input: w("ws3"), ContextInput: w("ws4"), Output: w("ws5"), NativeToken: w("ws6"), Staking: w("ws7"), BlockIssuer: w("ws8"), Allotment: w("ws9"), SignatureEd25519: w("ws10")}
	return s
}

// EncParams encodes protocol parameters from their accessors.
func EncParams(p iotago.ProtocolParameters) []byte {
	e := &enc{}
	str := func(s string) { e.u8(uint8(len(s))).raw([]byte(s)) }
	e.u8(0).u8(uint8(p.Version()))
	str(p.NetworkName())
	str(string(p.Bech32HRP()))
	ss := p.StorageScoreParameters()
	e.u64(uint64(ss.StorageCost)).u8(uint8(ss.FactorData)).u64(uint64(ss.OffsetOutputOverhead)).u64(uint64(ss.OffsetEd25519BlockIssuerKey)).u64(uint64(ss.OffsetStakingFeature)).u64(uint64(ss.OffsetDelegation))
	w := p.WorkScoreParameters()
	for _, x := range []iotago.WorkScore{w.DataByte, w.Block, w.Input, w.ContextInput, w.Output, w.NativeToken, w.Staking, w.BlockIssuer, w.Allotment, w.SignatureEd25519} {
		e.u32(uint32(x))
	}
	m := p.ManaParameters()
	e.u8(m.BitsCount).u8(m.GenerationRate).u8(m.GenerationRateExponent).u16(uint16(len(m.DecayFactors)))
	for _, d := range m.DecayFactors {
		e.u32(d)
	}
	e.u8(m.DecayFactorsExponent).u32(m.DecayFactorEpochsSum).u8(m.DecayFactorEpochsSumExponent).u8(m.AnnualDecayFactorPercentage)
	e.u64(uint64(p.TokenSupply())).u32(uint32(p.GenesisSlot())).u64(uint64(p.GenesisUnixTimestamp())).u8(p.SlotDurationInSeconds()).u8(p.SlotsPerEpochExponent())
	e.u32(uint32(p.StakingUnbondingPeriod())).u8(p.ValidationBlocksPerSlot()).u32(uint32(p.PunishmentEpochs()))
	e.u16(uint16(p.LivenessThresholdLowerBound().Seconds())).u16(uint16(p.LivenessThresholdUpperBound().Seconds()))
	e.u32(uint32(p.MinCommittableAge())).u32(uint32(p.MaxCommittableAge())).u32(uint32(p.EpochNearingThreshold()))
	c := p.CongestionControlParameters()
	e.u64(uint64(c.MinReferenceManaCost)).u64(uint64(c.Increase)).u64(uint64(c.Decrease)).u32(uint32(c.IncreaseThreshold)).u32(uint32(c.DecreaseThreshold)).u32(uint32(c.SchedulerRate)).u32(c.MaxBufferSize).u32(c.MaxValidationBufferSize)
	v := p.VersionSignalingParameters()
	e.u8(v.WindowSize).u8(v.WindowTargetRatio).u8(v.ActivationOffset)
	r := p.RewardsParameters()
	e.u8(r.ProfitMarginExponent).u32(uint32(r.BootstrappingDuration)).u8(r.RewardToGenerationRatio).u64(uint64(r.InitialTargetRewardsRate)).u64(uint64(r.FinalTargetRewardsRate)).u8(r.PoolCoefficientExponent).u16(r.RetentionPeriod)
	e.u8(p.TargetCommitteeSize()).u8(p.ChainSwitchingThreshold())
	return e.b
}

// Encode encodes with validation.
func Encode(e *Env, o any) ([]byte, error) { return e.API().Encode(o, serix.WithValidation()) }

// Decode decodes with validation into a fresh object of the kind.
func (k Kind) Decode(e *Env, b []byte) (any, int, error) {
	p := k.New()
	n, err := e.API().Decode(b, p, serix.WithValidation())
	if err != nil {
		return nil, n, err
	}
	return k.Get(p), n, nil
}

// KindByName finds a kind.
func KindByName(n string) Kind {
	for _, k := range Kinds {
		if k.Name == n {
			return k
		}
	}
	panic("[harness-error] kind " + n)
}

// GenKind draws a kind, biased to the composite ones.
func GenKind(t *rapid.T) Kind {
	if rapid.IntRange(0, 2).Draw(t, "composite") == 0 {
		n := rapid.SampledFrom([]string{"block", "block", "signedtx", "tx", "attestation"}).Draw(t, "kind")
		return KindByName(n)
	}
	return Kinds[rapid.IntRange(0, len(Kinds)-1).Draw(t, "kind")]
}

// IsNil tells whether a decoded interface is nil.
func IsNil(o any) bool {
	if o == nil {
		return true
	}
	v := reflect.ValueOf(o)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
