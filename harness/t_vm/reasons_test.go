package t_vm

import iotago "github.com/iotaledger/iota.go/v4"

// reasons is the documented failure reason of each error (the numbers are part of the REST API).
var reasons = []struct {
	err  error
	code byte
}{
	{iotago.ErrTxConflictRejected, 1},
	{iotago.ErrTxOrphaned, 2},
	{iotago.ErrInputAlreadySpent, 3},
	{iotago.ErrInputCreationAfterTxCreation, 4},
	{iotago.ErrUnlockSignatureInvalid, 5},
	{iotago.ErrChainAddressUnlockInvalid, 6},
	{iotago.ErrDirectUnlockableAddressUnlockInvalid, 7},
	{iotago.ErrMultiAddressUnlockInvalid, 8},
	{iotago.ErrCommitmentInputReferenceInvalid, 9},
	{iotago.ErrBICInputReferenceInvalid, 10},
	{iotago.ErrRewardInputReferenceInvalid, 11},
	{iotago.ErrStakingRewardCalculationFailure, 12},
	{iotago.ErrDelegationRewardCalculationFailure, 13},
	{iotago.ErrInputOutputBaseTokenMismatch, 14},
	{iotago.ErrManaOverflow, 15},
	{iotago.ErrInputOutputManaMismatch, 16},
	{iotago.ErrManaDecayCreationIndexExceedsTargetIndex, 17},
	{iotago.ErrNativeTokenSumUnbalanced, 18},
	{iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease, 19},
	{iotago.ErrSimpleTokenSchemeMintingInvalid, 20},
	{iotago.ErrSimpleTokenSchemeMeltingInvalid, 21},
	{iotago.ErrSimpleTokenSchemeMaximumSupplyChanged, 22},
	{iotago.ErrSimpleTokenSchemeGenesisInvalid, 23},
	{iotago.ErrMultiAddressLengthUnlockLengthMismatch, 24},
	{iotago.ErrMultiAddressUnlockThresholdNotReached, 25},
	{iotago.ErrSenderFeatureNotUnlocked, 26},
	{iotago.ErrIssuerFeatureNotUnlocked, 27},
	{iotago.ErrStakingRewardInputMissing, 28},
	{iotago.ErrStakingCommitmentInputMissing, 29},
	{iotago.ErrStakingRewardClaimingInvalid, 30},
	{iotago.ErrStakingFeatureRemovedBeforeUnbonding, 31},
	{iotago.ErrStakingFeatureModifiedBeforeUnbonding, 32},
	{iotago.ErrStakingStartEpochInvalid, 33},
	{iotago.ErrStakingEndEpochTooEarly, 34},
	{iotago.ErrBlockIssuerCommitmentInputMissing, 35},
	{iotago.ErrBlockIssuanceCreditInputMissing, 36},
	{iotago.ErrBlockIssuerNotExpired, 37},
	{iotago.ErrBlockIssuerExpiryTooEarly, 38},
	{iotago.ErrManaMovedOffBlockIssuerAccount, 39},
	{iotago.ErrAccountLocked, 40},
	{iotago.ErrTimelockCommitmentInputMissing, 41},
	{iotago.ErrTimelockNotExpired, 42},
	{iotago.ErrExpirationCommitmentInputMissing, 43},
	{iotago.ErrExpirationNotUnlockable, 44},
	{iotago.ErrReturnAmountNotFulFilled, 45},
	{iotago.ErrNewChainOutputHasNonZeroedID, 46},
	{iotago.ErrChainOutputImmutableFeaturesChanged, 47},
	{iotago.ErrImplicitAccountDestructionDisallowed, 48},
	{iotago.ErrMultipleImplicitAccountCreationAddresses, 49},
	{iotago.ErrAccountInvalidFoundryCounter, 50},
	{iotago.ErrAnchorInvalidStateTransition, 51},
	{iotago.ErrAnchorInvalidGovernanceTransition, 52},
	{iotago.ErrFoundryTransitionWithoutAccount, 53},
	{iotago.ErrFoundrySerialInvalid, 54},
	{iotago.ErrDelegationCommitmentInputMissing, 55},
	{iotago.ErrDelegationRewardInputMissing, 56},
	{iotago.ErrDelegationRewardsClaimingInvalid, 57},
	{iotago.ErrDelegationOutputTransitionedTwice, 58},
	{iotago.ErrDelegationModified, 59},
	{iotago.ErrDelegationStartEpochInvalid, 60},
	{iotago.ErrDelegationAmountMismatch, 61},
	{iotago.ErrDelegationEndEpochNotZero, 62},
	{iotago.ErrDelegationEndEpochInvalid, 63},
	{iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, 64},
	{iotago.ErrTxCapabilitiesManaBurningNotAllowed, 65},
	{iotago.ErrTxCapabilitiesAccountDestructionNotAllowed, 66},
	{iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed, 67},
	{iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed, 68},
	{iotago.ErrTxCapabilitiesNFTDestructionNotAllowed, 69},
}
