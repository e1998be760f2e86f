package kit

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
)

// This file is an independent description of the JSON form of all protocol objects.

// J is a JSON object.
type J map[string]any

func x(b []byte) string { return "0x" + hex.EncodeToString(b) }
func n(v uint64) string { return strconv.FormatUint(v, 10) }
func num[T ~uint8 | ~uint16 | ~uint32](v T) json.Number {
	return json.Number(strconv.FormatUint(uint64(v), 10))
}
func x256(v *big.Int) string { return "0x" + v.Text(16) }
func ty[T ~uint8](v T) json.Number {
	return num(uint8(v))
}

// opt sets the key unless the list is empty.
func (j J) opt(k string, l []any) J {
	if len(l) > 0 {
		j[k] = l
	}
	return j
}

func list[T any](xs []T, f func(T) any) (r []any) {
	r = []any{}
	for _, v := range xs {
		r = append(r, f(v))
	}
	return r
}

// JAddr is the JSON form of an address.
func JAddr(a iotago.Address) any {
	switch a := a.(type) {
	case *iotago.Ed25519Address:
		return J{"type": ty(uint8(0)), "pubKeyHash": x(a[:])}
	case *iotago.ImplicitAccountCreationAddress:
		return J{"type": ty(uint8(32)), "pubKeyHash": x(a[:])}
	case *iotago.AccountAddress:
		return J{"type": ty(uint8(8)), "accountId": x(a[:])}
	case *iotago.NFTAddress:
		return J{"type": ty(uint8(16)), "nftId": x(a[:])}
	case *iotago.AnchorAddress:
		return J{"type": ty(uint8(24)), "anchorId": x(a[:])}
	case *iotago.MultiAddress:
		return J{"type": ty(uint8(40)), "threshold": num(a.Threshold), "addresses": list(a.Addresses, func(w *iotago.AddressWithWeight) any {
			return J{"address": JAddr(w.Address), "weight": num(w.Weight)}
		})}
	case *iotago.RestrictedAddress:
		j := J{"type": ty(uint8(48)), "address": JAddr(a.Address)}
		if len(a.AllowedCapabilities) > 0 {
			j["allowedCapabilities"] = x(a.AllowedCapabilities)
		}
		return j
	}
	panic(fmt.Sprintf("[harness-error] JAddr %T", a))
}

func entries(m map[string][]byte) any {
	j := J{}
	for k, v := range m {
		if len(v) == 0 {
			j[k] = ""
		} else {
			j[k] = x(v)
		}
	}
	return j
}

func hexOrEmpty(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	return x(b)
}

// JFeat is the JSON form of a feature.
func JFeat(f iotago.Feature) any {
	switch f := f.(type) {
	case *iotago.SenderFeature:
		return J{"type": ty(uint8(0)), "address": JAddr(f.Address)}
	case *iotago.IssuerFeature:
		return J{"type": ty(uint8(1)), "address": JAddr(f.Address)}
	case *iotago.MetadataFeature:
		m := map[string][]byte{}
		for k, v := range f.Entries {
			m[string(k)] = v
		}
		return J{"type": ty(uint8(2)), "entries": entries(m)}
	case *iotago.StateMetadataFeature:
		m := map[string][]byte{}
		for k, v := range f.Entries {
			m[string(k)] = v
		}
		return J{"type": ty(uint8(3)), "entries": entries(m)}
	case *iotago.TagFeature:
		return J{"type": ty(uint8(4)), "tag": x(f.Tag)}
	case *iotago.NativeTokenFeature:
		return J{"type": ty(uint8(5)), "id": x(f.ID[:]), "amount": x256(f.Amount)}
	case *iotago.BlockIssuerFeature:
		return J{"type": ty(uint8(6)), "expirySlot": num(f.ExpirySlot), "blockIssuerKeys": list(f.BlockIssuerKeys, func(k iotago.BlockIssuerKey) any {
			h := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash
			return J{"type": ty(uint8(0)), "pubKeyHash": x(h[:])}
		})}
	case *iotago.StakingFeature:
		return J{"type": ty(uint8(7)), "stakedAmount": n(uint64(f.StakedAmount)), "fixedCost": n(uint64(f.FixedCost)), "startEpoch": num(f.StartEpoch), "endEpoch": num(f.EndEpoch)}
	}
	panic(fmt.Sprintf("[harness-error] JFeat %T", f))
}

// JUC is the JSON form of an unlock condition.
func JUC(u iotago.UnlockCondition) any {
	switch u := u.(type) {
	case *iotago.AddressUnlockCondition:
		return J{"type": ty(uint8(0)), "address": JAddr(u.Address)}
	case *iotago.StorageDepositReturnUnlockCondition:
		return J{"type": ty(uint8(1)), "returnAddress": JAddr(u.ReturnAddress), "amount": n(uint64(u.Amount))}
	case *iotago.TimelockUnlockCondition:
		return J{"type": ty(uint8(2)), "slot": num(u.Slot)}
	case *iotago.ExpirationUnlockCondition:
		return J{"type": ty(uint8(3)), "returnAddress": JAddr(u.ReturnAddress), "slot": num(u.Slot)}
	case *iotago.StateControllerAddressUnlockCondition:
		return J{"type": ty(uint8(4)), "address": JAddr(u.Address)}
	case *iotago.GovernorAddressUnlockCondition:
		return J{"type": ty(uint8(5)), "address": JAddr(u.Address)}
	case *iotago.ImmutableAccountUnlockCondition:
		return J{"type": ty(uint8(6)), "address": JAddr(u.Address)}
	}
	panic(fmt.Sprintf("[harness-error] JUC %T", u))
}

// JScheme is the JSON form of a token scheme.
func JScheme(t iotago.TokenScheme) any {
	s := t.(*iotago.SimpleTokenScheme)
	return J{"type": ty(uint8(0)), "mintedTokens": x256(s.MintedTokens), "meltedTokens": x256(s.MeltedTokens), "maximumSupply": x256(s.MaximumSupply)}
}

// JOutput is the JSON form of an output.
func JOutput(o iotago.Output) any {
	ucs, fs, ims := Parts(o)
	j := J{}
	switch o := o.(type) {
	case *iotago.BasicOutput:
		j = J{"type": ty(uint8(0)), "amount": n(uint64(o.Amount)), "mana": n(uint64(o.Mana))}
	case *iotago.AccountOutput:
		j = J{"type": ty(uint8(1)), "amount": n(uint64(o.Amount)), "mana": n(uint64(o.Mana)), "accountId": x(o.AccountID[:]), "foundryCounter": num(o.FoundryCounter)}
	case *iotago.AnchorOutput:
		j = J{"type": ty(uint8(2)), "amount": n(uint64(o.Amount)), "mana": n(uint64(o.Mana)), "anchorId": x(o.AnchorID[:]), "stateIndex": num(o.StateIndex)}
	case *iotago.FoundryOutput:
		j = J{"type": ty(uint8(3)), "amount": n(uint64(o.Amount)), "serialNumber": num(o.SerialNumber), "tokenScheme": JScheme(o.TokenScheme)}
	case *iotago.NFTOutput:
		j = J{"type": ty(uint8(4)), "amount": n(uint64(o.Amount)), "mana": n(uint64(o.Mana)), "nftId": x(o.NFTID[:])}
	case *iotago.DelegationOutput:
		j = J{"type": ty(uint8(5)), "amount": n(uint64(o.Amount)), "delegatedAmount": n(uint64(o.DelegatedAmount)), "delegationId": x(o.DelegationID[:]), "validatorAddress": JAddr(o.ValidatorAddress), "startEpoch": num(o.StartEpoch), "endEpoch": num(o.EndEpoch)}
	default:
		panic(fmt.Sprintf("[harness-error] JOutput %T", o))
	}
	return j.opt("unlockConditions", list(ucs, JUC)).opt("features", list(fs, JFeat)).opt("immutableFeatures", list(ims, JFeat))
}

// JSig is the JSON form of a signature.
func JSig(s iotago.Signature) any {
	e := s.(*iotago.Ed25519Signature)
	return J{"type": ty(uint8(0)), "publicKey": x(e.PublicKey[:]), "signature": x(e.Signature[:])}
}

// JUnlock is the JSON form of an unlock.
func JUnlock(u iotago.Unlock) any {
	switch u := u.(type) {
	case *iotago.SignatureUnlock:
		return J{"type": ty(uint8(0)), "signature": JSig(u.Signature)}
	case *iotago.ReferenceUnlock:
		return J{"type": ty(uint8(1)), "reference": num(u.Reference)}
	case *iotago.AccountUnlock:
		return J{"type": ty(uint8(2)), "reference": num(u.Reference)}
	case *iotago.AnchorUnlock:
		return J{"type": ty(uint8(3)), "reference": num(u.Reference)}
	case *iotago.NFTUnlock:
		return J{"type": ty(uint8(4)), "reference": num(u.Reference)}
	case *iotago.MultiUnlock:
		return J{"type": ty(uint8(5)), "unlocks": list(u.Unlocks, JUnlock)}
	case *iotago.EmptyUnlock:
		return J{"type": ty(uint8(6))}
	}
	panic(fmt.Sprintf("[harness-error] JUnlock %T", u))
}

// JCtx is the JSON form of a context input.
func JCtx(c iotago.ContextInput) any {
	switch c := c.(type) {
	case *iotago.CommitmentInput:
		return J{"type": ty(uint8(0)), "commitmentId": x(c.CommitmentID[:])}
	case *iotago.BlockIssuanceCreditInput:
		return J{"type": ty(uint8(1)), "accountId": x(c.AccountID[:])}
	case *iotago.RewardInput:
		return J{"type": ty(uint8(2)), "index": num(c.Index)}
	}
	panic(fmt.Sprintf("[harness-error] JCtx %T", c))
}

// JTx is the JSON form of a transaction.
func JTx(t *iotago.Transaction) any {
	j := J{"networkId": n(uint64(t.NetworkID)), "creationSlot": num(t.CreationSlot), "inputs": list(toT[iotago.Input](t.TransactionEssence.Inputs), func(i iotago.Input) any {
		u := i.(*iotago.UTXOInput)
		return J{"type": ty(uint8(0)), "transactionId": x(u.TransactionID[:]), "transactionOutputIndex": num(u.TransactionOutputIndex)}
	}), "outputs": list(t.Outputs, func(o iotago.TxEssenceOutput) any { return JOutput(o) })}
	j.opt("contextInputs", list(toT[iotago.ContextInput](t.TransactionEssence.ContextInputs), JCtx))
	j.opt("allotments", list(t.Allotments, func(a *iotago.Allotment) any {
		return J{"accountId": x(a.AccountID[:]), "mana": n(uint64(a.Mana))}
	}))
	if len(t.Capabilities) > 0 {
		j["capabilities"] = x(t.Capabilities)
	}
	if t.Payload != nil {
		j["payload"] = JPayload(t.Payload)
	}
	return j
}

// JPayload is the JSON form of a payload.
func JPayload(p iotago.Payload) any {
	switch p := p.(type) {
	case *iotago.TaggedData:
		j := J{"type": ty(uint8(0))}
		if len(p.Tag) > 0 {
			j["tag"] = x(p.Tag)
		}
		if len(p.Data) > 0 {
			j["data"] = x(p.Data)
		}
		return j
	case *iotago.SignedTransaction:
		return J{"type": ty(uint8(1)), "transaction": JTx(p.Transaction), "unlocks": list(p.Unlocks, JUnlock)}
	case *iotago.CandidacyAnnouncement:
		return J{"type": ty(uint8(2))}
	}
	panic(fmt.Sprintf("[harness-error] JPayload %T", p))
}

// JHeader is the JSON form of a block header.
func JHeader(h iotago.BlockHeader) any {
	return J{"protocolVersion": num(h.ProtocolVersion), "networkId": n(uint64(h.NetworkID)), "issuingTime": JTime(h.IssuingTime), "slotCommitmentId": x(h.SlotCommitmentID[:]), "latestFinalizedSlot": num(h.LatestFinalizedSlot), "issuerId": x(h.IssuerID[:])}
}

// JTime is the JSON form of a time.
func JTime(t time.Time) string { return strconv.FormatInt(t.UnixNano(), 10) }

func jIDs(ids iotago.BlockIDs) []any { return list(ids, func(i iotago.BlockID) any { return x(i[:]) }) }

// JBody is the JSON form of a block body.
func JBody(b iotago.BlockBody) any {
	switch b := b.(type) {
	case *iotago.BasicBlockBody:
		j := J{"type": ty(uint8(0)), "strongParents": jIDs(b.StrongParents), "maxBurnedMana": n(uint64(b.MaxBurnedMana))}
		if b.Payload != nil {
			j["payload"] = JPayload(b.Payload)
		}
		return j.opt("weakParents", jIDs(b.WeakParents)).opt("shallowLikeParents", jIDs(b.ShallowLikeParents))
	case *iotago.ValidationBlockBody:
		j := J{"type": ty(uint8(1)), "strongParents": jIDs(b.StrongParents), "highestSupportedVersion": num(b.HighestSupportedVersion), "protocolParametersHash": x(b.ProtocolParametersHash[:])}
		return j.opt("weakParents", jIDs(b.WeakParents)).opt("shallowLikeParents", jIDs(b.ShallowLikeParents))
	}
	panic(fmt.Sprintf("[harness-error] JBody %T", b))
}

// JParams is the JSON form of protocol parameters.
func JParams(p iotago.ProtocolParameters) any {
	ss, w, m, c, v, r := p.StorageScoreParameters(), p.WorkScoreParameters(), p.ManaParameters(), p.CongestionControlParameters(), p.VersionSignalingParameters(), p.RewardsParameters()
	return J{"type": ty(uint8(0)), "version": num(p.Version()), "networkName": p.NetworkName(), "bech32Hrp": string(p.Bech32HRP()),
		"storageScoreParameters":      J{"storageCost": n(uint64(ss.StorageCost)), "factorData": num(ss.FactorData), "offsetOutputOverhead": n(uint64(ss.OffsetOutputOverhead)), "offsetEd25519BlockIssuerKey": n(uint64(ss.OffsetEd25519BlockIssuerKey)), "offsetStakingFeature": n(uint64(ss.OffsetStakingFeature)), "offsetDelegation": n(uint64(ss.OffsetDelegation))},
		"workScoreParameters":         J{"dataByte": num(w.DataByte), "block": num(w.Block), "input": num(w.Input), "contextInput": num(w.ContextInput), "output": num(w.Output), "nativeToken": num(w.NativeToken), "staking": num(w.Staking), "blockIssuer": num(w.BlockIssuer), "allotment": num(w.Allotment), "signatureEd25519": num(w.SignatureEd25519)},
		"manaParameters":              J{"bitsCount": num(m.BitsCount), "generationRate": num(m.GenerationRate), "generationRateExponent": num(m.GenerationRateExponent), "decayFactors": list(m.DecayFactors, func(d uint32) any { return num(d) }), "decayFactorsExponent": num(m.DecayFactorsExponent), "decayFactorEpochsSum": num(m.DecayFactorEpochsSum), "decayFactorEpochsSumExponent": num(m.DecayFactorEpochsSumExponent), "annualDecayFactorPercentage": num(m.AnnualDecayFactorPercentage)},
		"tokenSupply":                 n(uint64(p.TokenSupply())),
		"genesisSlot":                 num(p.GenesisSlot()),
		"genesisUnixTimestamp":        strconv.FormatInt(p.GenesisUnixTimestamp(), 10),
		"slotDurationInSeconds":       num(p.SlotDurationInSeconds()),
		"slotsPerEpochExponent":       num(p.SlotsPerEpochExponent()),
		"stakingUnbondingPeriod":      num(p.StakingUnbondingPeriod()),
		"validationBlocksPerSlot":     num(p.ValidationBlocksPerSlot()),
		"punishmentEpochs":            num(p.PunishmentEpochs()),
		"livenessThresholdLowerBound": num(uint32(p.LivenessThresholdLowerBound() / time.Second)),
		"livenessThresholdUpperBound": num(uint32(p.LivenessThresholdUpperBound() / time.Second)),
		"minCommittableAge":           num(p.MinCommittableAge()),
		"maxCommittableAge":           num(p.MaxCommittableAge()),
		"epochNearingThreshold":       num(p.EpochNearingThreshold()),
		"congestionControlParameters": J{"minReferenceManaCost": n(uint64(c.MinReferenceManaCost)), "increase": n(uint64(c.Increase)), "decrease": n(uint64(c.Decrease)), "increaseThreshold": num(c.IncreaseThreshold), "decreaseThreshold": num(c.DecreaseThreshold), "schedulerRate": num(c.SchedulerRate), "maxBufferSize": num(c.MaxBufferSize), "maxValidationBufferSize": num(c.MaxValidationBufferSize)},
		"versionSignalingParameters":  J{"windowSize": num(v.WindowSize), "windowTargetRatio": num(v.WindowTargetRatio), "activationOffset": num(v.ActivationOffset)},
		"rewardsParameters":           J{"profitMarginExponent": num(r.ProfitMarginExponent), "bootstrappingDuration": num(r.BootstrappingDuration), "rewardToGenerationRatio": num(r.RewardToGenerationRatio), "initialTargetRewardsRate": n(uint64(r.InitialTargetRewardsRate)), "finalTargetRewardsRate": n(uint64(r.FinalTargetRewardsRate)), "poolCoefficientExponent": num(r.PoolCoefficientExponent), "retentionPeriod": num(r.RetentionPeriod)},
		"targetCommitteeSize":         num(p.TargetCommitteeSize()),
		"chainSwitchingThreshold":     num(p.ChainSwitchingThreshold()),
	}
}

// RefJSON is the JSON form of any protocol object.
func RefJSON(o any) any {
	switch o := o.(type) {
	case iotago.ProtocolParameters:
		return JParams(o)
	case iotago.Address:
		return JAddr(o)
	case iotago.Output:
		return JOutput(o)
	case iotago.UnlockCondition:
		return JUC(o)
	case iotago.Feature:
		return JFeat(o)
	case iotago.Unlock:
		return JUnlock(o)
	case iotago.ContextInput:
		return JCtx(o)
	case iotago.TokenScheme:
		return JScheme(o)
	case iotago.Signature:
		return JSig(o)
	case *iotago.Transaction:
		return JTx(o)
	case iotago.Payload:
		return JPayload(o)
	case *iotago.Block:
		return J{"header": JHeader(o.Header), "body": JBody(o.Body), "signature": JSig(o.Signature)}
	case *iotago.Attestation:
		return J{"header": JHeader(o.Header), "bodyHash": x(o.BodyHash[:]), "signature": JSig(o.Signature)}
	case *iotago.Commitment:
		return J{"protocolVersion": num(o.ProtocolVersion), "slot": num(o.Slot), "previousCommitmentId": x(o.PreviousCommitmentID[:]), "rootsId": x(o.RootsID[:]), "cumulativeWeight": n(o.CumulativeWeight), "referenceManaCost": n(uint64(o.ReferenceManaCost))}
	case *iotago.Roots:
		return J{"tangleRoot": x(o.TangleRoot[:]), "stateMutationRoot": x(o.StateMutationRoot[:]), "stateRoot": x(o.StateRoot[:]), "accountRoot": x(o.AccountRoot[:]), "attestationsRoot": x(o.AttestationsRoot[:]), "committeeRoot": x(o.CommitteeRoot[:]), "rewardsRoot": x(o.RewardsRoot[:]), "protocolParametersHash": x(o.ProtocolParametersHash[:])}
	}
	panic(fmt.Sprintf("[harness-error] RefJSON %T", o))
}

// responses lists the JSON fields of every API response in declaration order; "?" marks those left out when empty.
var responses = map[string]string{
	"InfoResponse":                "name version status protocolParameters baseToken",
	"InfoResProtocolParameters":   "startEpoch parameters",
	"InfoResNodeStatus":           "isHealthy isNetworkHealthy acceptedTangleTime relativeAcceptedTangleTime confirmedTangleTime relativeConfirmedTangleTime latestCommitmentId latestFinalizedSlot latestAcceptedBlockSlot latestConfirmedBlockSlot pruningEpoch",
	"InfoResBaseToken":            "name tickerSymbol unit subunit? decimals",
	"NetworkHealthResponse":       "isNetworkHealthy",
	"NetworkMetricsResponse":      "blocksPerSecond confirmedBlocksPerSecond confirmationRate",
	"IssuanceBlockHeaderResponse": "strongParents weakParents? shallowLikeParents? latestParentBlockIssuingTime latestFinalizedSlot latestCommitment",
	"BlockCreatedResponse":        "blockId",
	"BlockMetadataResponse":       "blockId blockState",
	"BlockWithMetadataResponse":   "block metadata",
	"TransactionMetadataResponse": "transactionId transactionState earliestAttachmentSlot transactionFailureReason? transactionFailureDetails?",
	"OutputWithID":                "outputId output",
	"OutputInclusionMetadata":     "slot transactionId commitmentId?",
	"OutputConsumptionMetadata":   "slot transactionId commitmentId?",
	"OutputMetadata":              "outputId blockId included spent? latestCommitmentId",
	"UTXOChangesResponse":         "commitmentId createdOutputs consumedOutputs",
	"UTXOChangesFullResponse":     "commitmentId createdOutputs consumedOutputs",
	"CongestionResponse":          "slot ready referenceManaCost blockIssuanceCredits",
	"ValidatorResponse":           "address stakingEndEpoch poolStake validatorStake fixedCost active latestSupportedProtocolVersion latestSupportedProtocolHash",
	"ValidatorsResponse":          "validators pageSize cursor?",
	"ManaRewardsResponse":         "startEpoch endEpoch rewards latestCommittedEpochPoolRewards",
	"CommitteeMemberResponse":     "address poolStake validatorStake fixedCost",
	"CommitteeResponse":           "committee totalStake totalValidatorStake epoch",
	"AddPeerRequest":              "multiAddress alias?",
	"PeerInfo":                    "id multiAddresses alias? relation connected gossipMetrics",
	"PeerGossipMetrics":           "packetsReceived packetsSent",
	"PeersResponse":               "peers",
	"PruneDatabaseRequest":        "epoch? depth? targetDatabaseSize?",
	"PruneDatabaseResponse":       "epoch",
	"HealthResponse":              "isHealthy",
	"RoutesResponse":              "routes",
	"IndexerResponse":             "committedSlot pageSize items cursor?",
	"BlockIssuerInfo":             "blockIssuerAddress powTargetTrailingZeros",
}

// Responses are the API objects that are generated reflectively.
var Responses = []func() any{
	func() any { return new(api.InfoResponse) }, func() any { return new(api.NetworkHealthResponse) }, func() any { return new(api.NetworkMetricsResponse) },
	func() any { return new(api.IssuanceBlockHeaderResponse) }, func() any { return new(api.BlockCreatedResponse) }, func() any { return new(api.BlockMetadataResponse) },
	func() any { return new(api.BlockWithMetadataResponse) }, func() any { return new(api.TransactionMetadataResponse) }, func() any { return new(api.OutputMetadata) },
	func() any { return new(api.UTXOChangesResponse) }, func() any { return new(api.UTXOChangesFullResponse) }, func() any { return new(api.CongestionResponse) },
	func() any { return new(api.ValidatorResponse) }, func() any { return new(api.ValidatorsResponse) }, func() any { return new(api.ManaRewardsResponse) },
	func() any { return new(api.CommitteeResponse) }, func() any { return new(api.AddPeerRequest) }, func() any { return new(api.PeerInfo) },
	func() any { return new(api.PeersResponse) }, func() any { return new(api.PruneDatabaseRequest) }, func() any { return new(api.PruneDatabaseResponse) },
	func() any { return new(api.HealthResponse) }, func() any { return new(api.RoutesResponse) }, func() any { return new(api.IndexerResponse) },
	func() any { return new(api.BlockIssuerInfo) },
}

var blockStates = []string{"unknown", "pending", "accepted", "confirmed", "finalized", "dropped", "orphaned"}
var txStates = []string{"unknown", "pending", "accepted", "committed", "finalized", "failed"}

// jfloat is a number given as decimal text in any notation.
type jfloat float64

// MarshalJSON gives one of the notations.
func (f jfloat) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}

// RefResponse is the JSON form of an API response.
func RefResponse(v reflect.Value) any {
	if v.CanInterface() {
		switch o := v.Interface().(type) {
		case iotago.ProtocolParameters:
			return JParams(o)
		case iotago.TxEssenceOutput:
			return JOutput(o)
		case *iotago.Block, *iotago.Commitment:
			return RefJSON(o)
		case time.Time:
			return JTime(o)
		case api.BlockState:
			return blockStates[o]
		case api.TransactionState:
			return txStates[o]
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return RefResponse(v.Elem())
	case reflect.Struct:
		t := v.Type()
		spec, ok := responses[t.Name()]
		if !ok {
			panic("[harness-error] unknown response " + t.Name())
		}
		names := strings.Fields(spec)
		if len(names) != t.NumField() {
			panic("[harness-error] response changed: " + t.Name())
		}
		j := J{}
		for i, k := range names {
			f := v.Field(i)
			if strings.HasSuffix(k, "?") {
				if f.IsZero() || (f.Kind() == reflect.Slice && f.Len() == 0) {
					continue
				}
				k = strings.TrimSuffix(k, "?")
			}
			j[k] = RefResponse(f)
		}
		return j
	case reflect.Array:
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		return x(b)
	case reflect.Slice:
		r := []any{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, RefResponse(v.Index(i)))
		}
		return r
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return json.Number(n(v.Uint()))
	case reflect.Uint64:
		return n(v.Uint())
	case reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Float64:
		return jfloat(v.Float())
	}
	panic("[harness-error] RefResponse " + v.Type().String())
}

// Fill generates a response reflectively.
func (g *G) Fill(v reflect.Value, l string) {
	switch v.Interface().(type) {
	case time.Time:
		v.Set(reflect.ValueOf(time.Unix(0, int64(g.U64Max(1<<63-1, l))).UTC()))
		return
	case *iotago.Block:
		v.Set(reflect.ValueOf(g.Block()))
		return
	case *iotago.Commitment:
		v.Set(reflect.ValueOf(g.Commitment()))
		return
	case api.BlockState:
		v.SetUint(uint64(g.Int(0, 6, l)))
		return
	case api.TransactionState:
		v.SetUint(uint64(g.Int(0, 5, l)))
		return
	}
	switch v.Type() {
	case reflect.TypeFor[iotago.ProtocolParameters]():
		v.Set(reflect.ValueOf(g.Params().Params()))
		return
	case reflect.TypeFor[iotago.TxEssenceOutput]():
		v.Set(reflect.ValueOf(g.Output(OKind(g.Int(0, 5, l+"k")), l)))
		return
	case reflect.TypeFor[iotago.HexOutputIDs]():
		var r iotago.HexOutputIDs
		for i := g.Int(0, 3, l+"n"); i > 0; i-- {
			id := g.OutputID(l)
			r = append(r, iotago.HexOutputID(x(id[:])))
		}
		v.Set(reflect.ValueOf(r))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type() == reflect.TypeFor[*api.OutputConsumptionMetadata]() && g.Bool(l+"nil") {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.Fill(v.Elem(), l)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.Fill(v.Field(i), l+"."+v.Type().Field(i).Name)
		}
	case reflect.Array:
		if g.Rare(4, l+"z") {
			return
		}
		reflect.Copy(v, reflect.ValueOf(g.Bytes(v.Len(), l)))
	case reflect.Slice:
		k := g.Int(0, 3, l+"n")
		if k == 0 && g.Bool(l+"nil") {
			return
		}
		s := reflect.MakeSlice(v.Type(), k, k)
		for i := 0; i < k; i++ {
			g.Fill(s.Index(i), l)
		}
		v.Set(s)
	case reflect.String:
		v.SetString(g.Text(l))
	case reflect.Bool:
		v.SetBool(g.Bool(l))
	case reflect.Uint8:
		v.SetUint(uint64(g.Int(0, 255, l)))
	case reflect.Uint16:
		v.SetUint(uint64(g.Int(0, 65535, l)))
	case reflect.Uint32:
		v.SetUint(uint64(g.U32(l)))
	case reflect.Uint64:
		v.SetUint(g.U64(l))
	case reflect.Int64:
		v.SetInt(int64(g.U64(l)))
	case reflect.Float64:
		v.SetFloat(float64(g.U64(l)) / 1024)
	default:
		panic("[harness-error] Fill " + v.Type().String())
	}
}

// SameJSON compares a JSON document with a reference form; returns a description of the first difference.
func SameJSON(got []byte, want any) string {
	d := json.NewDecoder(strings.NewReader(string(got)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "not JSON: " + err.Error()
	}
	return diffJSON("$", v, want)
}

func diffJSON(p string, got, want any) string {
	switch w := want.(type) {
	case J:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: got %v, want an object", p, got)
		}
		var keys []string
		for k := range w {
			keys = append(keys, k)
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			gv, ok1 := g[k]
			wv, ok2 := w[k]
			if !ok1 {
				return fmt.Sprintf("%s.%s missing", p, k)
			}
			if !ok2 {
				return fmt.Sprintf("%s.%s unexpected", p, k)
			}
			if s := diffJSON(p+"."+k, gv, wv); s != "" {
				return s
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: got %v, want %d elements", p, got, len(w))
		}
		for i := range w {
			if s := diffJSON(fmt.Sprintf("%s[%d]", p, i), g[i], w[i]); s != "" {
				return s
			}
		}
		return ""
	}
	if f, ok := want.(jfloat); ok {
		if s, ok := got.(string); ok {
			if v, err := strconv.ParseFloat(s, 64); err == nil && v == float64(f) {
				return ""
			}
		}
	}
	if got != want {
		return fmt.Sprintf("%s: got %T %v, want %T %v", p, got, got, want, want)
	}
	return ""
}
