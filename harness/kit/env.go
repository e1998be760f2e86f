package kit

import (
	"sync"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
)

// Spec is the harness' own record of protocol parameters (independent of the library's accessors).
type Spec struct {
	Name, HRP                                            string
	Version                                              byte
	StorageCost                                          uint64
	FactorData                                           uint8
	OffOutput, OffKey, OffStaking, OffDelegation         uint64
	WS                                                   iotago.WorkScoreParameters
	GenesisSlot                                          uint32
	GenesisUnix                                          int64
	SlotDur, EpochExp                                    uint8
	LiveLow, LiveUp                                      uint16
	MinCA, MaxCA, Nearing                                uint32
	Supply                                               uint64
	Bits, GenRate, GenRateExp, DecExp, DecSumExp, Annual uint8
	MinRMC, RMCInc, RMCDec                               uint64
	IncThr, DecThr, SchedRate                            uint32
	MaxBuf, MaxValBuf                                    uint32
	Unbonding                                            uint32
	ValPerSlot                                           uint8
	Punish                                               uint32
	SigWindow, SigRatio, SigOff                          uint8
	Profit, PoolExp, RewRatio                            uint8
	Retention                                            uint16
	Committee, ChainSwitch                               uint8
}

// Params builds the library's parameters from the record.
func (s Spec) Params() *iotago.V3ProtocolParameters {
	return iotago.NewV3SnapshotProtocolParameters(
		iotago.WithVersion(iotago.Version(s.Version)),
		iotago.WithNetworkOptions(s.Name, iotago.NetworkPrefix(s.HRP)),
		iotago.WithStorageOptions(iotago.BaseToken(s.StorageCost), iotago.StorageScoreFactor(s.FactorData), iotago.StorageScore(s.OffOutput), iotago.StorageScore(s.OffKey), iotago.StorageScore(s.OffStaking), iotago.StorageScore(s.OffDelegation)),
		iotago.WithWorkScoreOptions(s.WS.DataByte, s.WS.Block, s.WS.Input, s.WS.ContextInput, s.WS.Output, s.WS.NativeToken, s.WS.Staking, s.WS.BlockIssuer, s.WS.Allotment, s.WS.SignatureEd25519),
		iotago.WithTimeProviderOptions(iotago.SlotIndex(s.GenesisSlot), s.GenesisUnix, s.SlotDur, s.EpochExp),
		iotago.WithLivenessOptions(s.LiveLow, s.LiveUp, iotago.SlotIndex(s.MinCA), iotago.SlotIndex(s.MaxCA), iotago.SlotIndex(s.Nearing)),
		iotago.WithSupplyOptions(iotago.BaseToken(s.Supply), s.Bits, s.GenRate, s.GenRateExp, s.DecExp, s.DecSumExp, s.Annual),
		iotago.WithCongestionControlOptions(iotago.Mana(s.MinRMC), iotago.Mana(s.RMCInc), iotago.Mana(s.RMCDec), iotago.WorkScore(s.IncThr), iotago.WorkScore(s.DecThr), iotago.WorkScore(s.SchedRate), s.MaxBuf, s.MaxValBuf),
		iotago.WithStakingOptions(iotago.EpochIndex(s.Unbonding), s.ValPerSlot, iotago.EpochIndex(s.Punish)),
		iotago.WithVersionSignalingOptions(s.SigWindow, s.SigRatio, s.SigOff),
		iotago.WithRewardsOptions(s.Profit, s.PoolExp, s.RewRatio, s.Retention),
		iotago.WithTargetCommitteeSize(s.Committee),
		iotago.WithChainSwitchingThreshold(s.ChainSwitch),
	)
}

// BaseSpec is the default network.
func BaseSpec() Spec {
	return Spec{Name: "verifnet", HRP: "rms", Version: 3, StorageCost: 100, FactorData: 1, OffOutput: 10, OffKey: 100, OffStaking: 100, OffDelegation: 100,
		WS:          iotago.WorkScoreParameters{DataByte: 1, Block: 1500, Input: 10, ContextInput: 20, Output: 20, NativeToken: 50, Staking: 40, BlockIssuer: 70, Allotment: 7, SignatureEd25519: 200},
		GenesisSlot: 0, GenesisUnix: 1690879505, SlotDur: 10, EpochExp: 13, LiveLow: 15, LiveUp: 30, MinCA: 10, MaxCA: 20, Nearing: 60,
		Supply: 1813620509061365, Bits: 63, GenRate: 1, GenRateExp: 17, DecExp: 32, DecSumExp: 21, Annual: 70,
		MinRMC: 1, RMCInc: 1, RMCDec: 1, IncThr: 400000000, DecThr: 250000000, SchedRate: 50000000, MaxBuf: 1000, MaxValBuf: 100,
		Unbonding: 10, ValPerSlot: 10, Punish: 10, SigWindow: 7, SigRatio: 5, SigOff: 7, Profit: 8, PoolExp: 11, RewRatio: 2, Retention: 384, Committee: 32, ChainSwitch: 3}
}

// Env is one protocol configuration with its API.
type Env struct {
	Spec
	once sync.Once
	api  iotago.API
}

// API returns the (cached) API of the environment.
func (e *Env) API() iotago.API {
	e.once.Do(func() { e.api = iotago.V3API(e.Params()) })
	return e.api
}

var envs []*Env

func init() {
	add := func(f func(s *Spec)) {
		s := BaseSpec()
		f(&s)
		envs = append(envs, &Env{Spec: s})
	}
	add(func(s *Spec) {})
	// genesis slot > 0, short epochs
	add(func(s *Spec) {
		s.Name = "genesis"
		s.HRP = "tst"
		s.GenesisSlot = 77
		s.Bits = 55
		s.Supply = 1 << 42
		s.EpochExp = 8
		s.DecSumExp = 16
		s.MinCA = 7
		s.MaxCA = 19
		s.Nearing = 40
		s.SlotDur = 10
		s.Unbonding = 3
		s.StorageCost = 7
		s.FactorData = 3
		s.OffOutput = 13
		s.OffKey = 17
		s.OffStaking = 19
		s.OffDelegation = 23
		s.ValPerSlot = 5
		s.WS = iotago.WorkScoreParameters{DataByte: 3, Block: 5, Input: 7, ContextInput: 11, Output: 13, NativeToken: 17, Staking: 19, BlockIssuer: 23, Allotment: 29, SignatureEd25519: 31}
	})
	// free storage, free work
	add(func(s *Spec) {
		s.Name = "zero"
		s.HRP = "z"
		s.StorageCost = 0
		s.FactorData = 0
		s.OffOutput = 0
		s.OffKey = 0
		s.OffStaking = 0
		s.OffDelegation = 0
		s.WS = iotago.WorkScoreParameters{}
		s.GenesisSlot = 65537
		s.GenesisUnix = 1000000
		s.SlotDur = 1
		s.EpochExp = 10
		s.DecSumExp = 14
		s.LiveLow = 1
		s.LiveUp = 2
		s.MinCA = 3
		s.MaxCA = 5
		s.Nearing = 7
		s.Unbonding = 1
		s.SchedRate = 500000000
		s.Supply = 1 << 40
		s.PoolExp = 20
	})
	// strong generation and decay
	add(func(s *Spec) {
		s.Name = "fast-mana"
		s.HRP = "fm"
		s.SlotDur = 200
		s.EpochExp = 12
		s.GenRate = 9
		s.GenRateExp = 14
		s.Annual = 3
		s.DecSumExp = 24
		s.Supply = 1 << 42
		s.Bits = 63
		s.MinCA = 10
		s.MaxCA = 50
		s.Nearing = 100
		s.GenesisSlot = 5
		s.MinRMC = 500
		s.StorageCost = 1
		s.FactorData = 1
		s.SchedRate = 20000000
		s.IncThr = 4000000
		s.DecThr = 1000000
	})
}

// Envs returns the pool.
func Envs() []*Env { return envs }

// GenEnv draws an environment.
func GenEnv(t *rapid.T) *Env { return envs[rapid.IntRange(0, len(envs)-1).Draw(t, "env")] }
