package main

import (
	"errors"

	iotago "github.com/iotaledger/iota.go/v4"
)

type sentinel struct {
	name string
	err  error
}

func errorsIs(a, b error) bool { return errors.Is(a, b) }

// sentinels names the errors of the library; used only to attribute a rejection
// the specification does not expect, never for a verdict.
var sentinels = []sentinel{
	{"InvalidAddressType", iotago.ErrInvalidAddressType},
	{"InvalidRestrictedAddress", iotago.ErrInvalidRestrictedAddress},
	{"InvalidNestedAddressType", iotago.ErrInvalidNestedAddressType},
	{"ImplicitAccountCreationAddressInInvalidUnlockCondition", iotago.ErrImplicitAccountCreationAddressInInvalidUnlockCondition},
	{"ImplicitAccountCreationAddressInInvalidOutput", iotago.ErrImplicitAccountCreationAddressInInvalidOutput},
	{"AddressCannotReceiveNativeTokens", iotago.ErrAddressCannotReceiveNativeTokens},
	{"AddressCannotReceiveMana", iotago.ErrAddressCannotReceiveMana},
	{"AddressCannotReceiveTimelockUnlockCondition", iotago.ErrAddressCannotReceiveTimelockUnlockCondition},
	{"AddressCannotReceiveExpirationUnlockCondition", iotago.ErrAddressCannotReceiveExpirationUnlockCondition},
	{"AddressCannotReceiveStorageDepositReturnUnlockCondition", iotago.ErrAddressCannotReceiveStorageDepositReturnUnlockCondition},
	{"AddressCannotReceiveAccountOutput", iotago.ErrAddressCannotReceiveAccountOutput},
	{"AddressCannotReceiveAnchorOutput", iotago.ErrAddressCannotReceiveAnchorOutput},
	{"AddressCannotReceiveNFTOutput", iotago.ErrAddressCannotReceiveNFTOutput},
	{"AddressCannotReceiveDelegationOutput", iotago.ErrAddressCannotReceiveDelegationOutput},
	{"MultiAddressWeightInvalid", iotago.ErrMultiAddressWeightInvalid},
	{"MultiAddressThresholdInvalid", iotago.ErrMultiAddressThresholdInvalid},
	{"AddressKeysNotMapped", iotago.ErrAddressKeysNotMapped},
	{"AddressKeysWrongType", iotago.ErrAddressKeysWrongType},
	{"BitmaskTrailingZeroBytes", iotago.ErrBitmaskTrailingZeroBytes},
	{"WeakParentsInvalid", iotago.ErrWeakParentsInvalid},
	{"TransactionCreationSlotTooRecent", iotago.ErrTransactionCreationSlotTooRecent},
	{"CommitmentTooOld", iotago.ErrCommitmentTooOld},
	{"CommitmentTooRecent", iotago.ErrCommitmentTooRecent},
	{"CommitmentInputTooOld", iotago.ErrCommitmentInputTooOld},
	{"CommitmentInputTooRecent", iotago.ErrCommitmentInputTooRecent},
	{"InvalidBlockVersion", iotago.ErrInvalidBlockVersion},
	{"BlockMaxSizeExceeded", iotago.ErrBlockMaxSizeExceeded},
	{"CommitmentInputNewerThanCommitment", iotago.ErrCommitmentInputNewerThanCommitment},
	{"BlockNetworkIDInvalid", iotago.ErrBlockNetworkIDInvalid},
	{"HighestSupportedVersionTooSmall", iotago.ErrHighestSupportedVersionTooSmall},
	{"BlockParentNotFound", iotago.ErrBlockParentNotFound},
	{"BlockIssuingTimeNonMonotonic", iotago.ErrBlockIssuingTimeNonMonotonic},
	{"IssuerAccountNotFound", iotago.ErrIssuerAccountNotFound},
	{"BurnedInsufficientMana", iotago.ErrBurnedInsufficientMana},
	{"RMCNotFound", iotago.ErrRMCNotFound},
	{"FailedToCalculateManaCost", iotago.ErrFailedToCalculateManaCost},
	{"AccountExpired", iotago.ErrAccountExpired},
	{"InvalidSignature", iotago.ErrInvalidSignature},
	{"CommitmentInputMissing", iotago.ErrCommitmentInputMissing},
	{"CommitmentInputReferenceInvalid", iotago.ErrCommitmentInputReferenceInvalid},
	{"BICInputReferenceInvalid", iotago.ErrBICInputReferenceInvalid},
	{"RewardInputReferenceInvalid", iotago.ErrRewardInputReferenceInvalid},
	{"StakingRewardCalculationFailure", iotago.ErrStakingRewardCalculationFailure},
	{"DelegationRewardCalculationFailure", iotago.ErrDelegationRewardCalculationFailure},
	{"TxConflictRejected", iotago.ErrTxConflictRejected},
	{"TxOrphaned", iotago.ErrTxOrphaned},
	{"InputAlreadySpent", iotago.ErrInputAlreadySpent},
	{"NonUniqueFeatures", iotago.ErrNonUniqueFeatures},
	{"InvalidMetadataKey", iotago.ErrInvalidMetadataKey},
	{"InvalidStateMetadataKey", iotago.ErrInvalidStateMetadataKey},
	{"MetadataExceedsMaxSize", iotago.ErrMetadataExceedsMaxSize},
	{"BlockIssuerCommitmentInputMissing", iotago.ErrBlockIssuerCommitmentInputMissing},
	{"BlockIssuanceCreditInputMissing", iotago.ErrBlockIssuanceCreditInputMissing},
	{"BlockIssuerNotExpired", iotago.ErrBlockIssuerNotExpired},
	{"BlockIssuerExpiryTooEarly", iotago.ErrBlockIssuerExpiryTooEarly},
	{"ManaMovedOffBlockIssuerAccount", iotago.ErrManaMovedOffBlockIssuerAccount},
	{"AccountLocked", iotago.ErrAccountLocked},
	{"NativeTokenAmountLessThanEqualZero", iotago.ErrNativeTokenAmountLessThanEqualZero},
	{"NativeTokenSumExceedsUint256", iotago.ErrNativeTokenSumExceedsUint256},
	{"NativeTokenSumUnbalanced", iotago.ErrNativeTokenSumUnbalanced},
	{"FoundryIDNativeTokenIDMismatch", iotago.ErrFoundryIDNativeTokenIDMismatch},
	{"StakingStartEpochInvalid", iotago.ErrStakingStartEpochInvalid},
	{"StakingEndEpochTooEarly", iotago.ErrStakingEndEpochTooEarly},
	{"StakingBlockIssuerFeatureMissing", iotago.ErrStakingBlockIssuerFeatureMissing},
	{"StakingFeatureRemovedBeforeUnbonding", iotago.ErrStakingFeatureRemovedBeforeUnbonding},
	{"StakingFeatureModifiedBeforeUnbonding", iotago.ErrStakingFeatureModifiedBeforeUnbonding},
	{"StakingRewardInputMissing", iotago.ErrStakingRewardInputMissing},
	{"StakingRewardClaimingInvalid", iotago.ErrStakingRewardClaimingInvalid},
	{"StakingCommitmentInputMissing", iotago.ErrStakingCommitmentInputMissing},
	{"RefUTXOIndexInvalid", iotago.ErrRefUTXOIndexInvalid},
	{"OwnerTransitionDependentOutputNonUTXOChainID", iotago.ErrOwnerTransitionDependentOutputNonUTXOChainID},
	{"OwnerTransitionDependentOutputNextInvalid", iotago.ErrOwnerTransitionDependentOutputNextInvalid},
	{"ArrayValidationOrderViolatesLexicalOrder", iotago.ErrArrayValidationOrderViolatesLexicalOrder},
	{"ArrayValidationViolatesUniqueness", iotago.ErrArrayValidationViolatesUniqueness},
	{"AmountMustBeGreaterThanZero", iotago.ErrAmountMustBeGreaterThanZero},
	{"ChainMissing", iotago.ErrChainMissing},
	{"NonUniqueChainOutputs", iotago.ErrNonUniqueChainOutputs},
	{"NewChainOutputHasNonZeroedID", iotago.ErrNewChainOutputHasNonZeroedID},
	{"ChainOutputImmutableFeaturesChanged", iotago.ErrChainOutputImmutableFeaturesChanged},
	{"ImplicitAccountDestructionDisallowed", iotago.ErrImplicitAccountDestructionDisallowed},
	{"MultipleImplicitAccountCreationAddresses", iotago.ErrMultipleImplicitAccountCreationAddresses},
	{"AccountInvalidFoundryCounter", iotago.ErrAccountInvalidFoundryCounter},
	{"AnchorMissing", iotago.ErrAnchorMissing},
	{"DelegationCommitmentInputMissing", iotago.ErrDelegationCommitmentInputMissing},
	{"DelegationRewardInputMissing", iotago.ErrDelegationRewardInputMissing},
	{"DelegationRewardsClaimingInvalid", iotago.ErrDelegationRewardsClaimingInvalid},
	{"DelegationOutputTransitionedTwice", iotago.ErrDelegationOutputTransitionedTwice},
	{"DelegationModified", iotago.ErrDelegationModified},
	{"DelegationStartEpochInvalid", iotago.ErrDelegationStartEpochInvalid},
	{"DelegationAmountMismatch", iotago.ErrDelegationAmountMismatch},
	{"DelegationEndEpochNotZero", iotago.ErrDelegationEndEpochNotZero},
	{"DelegationEndEpochInvalid", iotago.ErrDelegationEndEpochInvalid},
	{"DelegationValidatorAddressEmpty", iotago.ErrDelegationValidatorAddressEmpty},
	{"FoundryTransitionWithoutAccount", iotago.ErrFoundryTransitionWithoutAccount},
	{"FoundrySerialInvalid", iotago.ErrFoundrySerialInvalid},
	{"Ed25519PubKeyAndAddrMismatch", iotago.ErrEd25519PubKeyAndAddrMismatch},
	{"Ed25519SignatureInvalid", iotago.ErrEd25519SignatureInvalid},
	{"InputOutputBaseTokenMismatch", iotago.ErrInputOutputBaseTokenMismatch},
	{"ManaOverflow", iotago.ErrManaOverflow},
	{"InputUnlockCountMismatch", iotago.ErrInputUnlockCountMismatch},
	{"SignatureAndAddrIncompatible", iotago.ErrSignatureAndAddrIncompatible},
	{"SenderFeatureNotUnlocked", iotago.ErrSenderFeatureNotUnlocked},
	{"IssuerFeatureNotUnlocked", iotago.ErrIssuerFeatureNotUnlocked},
	{"ReturnAmountNotFulFilled", iotago.ErrReturnAmountNotFulFilled},
	{"InputOutputManaMismatch", iotago.ErrInputOutputManaMismatch},
	{"InputCreationAfterTxCreation", iotago.ErrInputCreationAfterTxCreation},
	{"StorageDepositNotCovered", iotago.ErrStorageDepositNotCovered},
	{"TypeIsNotSupportedStorageScoreStructure", iotago.ErrTypeIsNotSupportedStorageScoreStructure},
	{"SimpleTokenSchemeMintedMeltedTokenDecrease", iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease},
	{"SimpleTokenSchemeMintingInvalid", iotago.ErrSimpleTokenSchemeMintingInvalid},
	{"SimpleTokenSchemeMeltingInvalid", iotago.ErrSimpleTokenSchemeMeltingInvalid},
	{"SimpleTokenSchemeMaximumSupplyChanged", iotago.ErrSimpleTokenSchemeMaximumSupplyChanged},
	{"SimpleTokenSchemeInvalidMaximumSupply", iotago.ErrSimpleTokenSchemeInvalidMaximumSupply},
	{"SimpleTokenSchemeInvalidMintedMeltedTokens", iotago.ErrSimpleTokenSchemeInvalidMintedMeltedTokens},
	{"SimpleTokenSchemeGenesisInvalid", iotago.ErrSimpleTokenSchemeGenesisInvalid},
	{"TxTypeInvalid", iotago.ErrTxTypeInvalid},
	{"TxEssenceNetworkIDInvalid", iotago.ErrTxEssenceNetworkIDInvalid},
	{"TxEssenceCapabilitiesInvalid", iotago.ErrTxEssenceCapabilitiesInvalid},
	{"InputUTXORefsNotUnique", iotago.ErrInputUTXORefsNotUnique},
	{"InputRewardIndexExceedsMaxInputsCount", iotago.ErrInputRewardIndexExceedsMaxInputsCount},
	{"AccountOutputNonEmptyState", iotago.ErrAccountOutputNonEmptyState},
	{"AccountOutputCyclicAddress", iotago.ErrAccountOutputCyclicAddress},
	{"AccountOutputAmountLessThanStakedAmount", iotago.ErrAccountOutputAmountLessThanStakedAmount},
	{"AnchorOutputNonEmptyState", iotago.ErrAnchorOutputNonEmptyState},
	{"AnchorOutputCyclicAddress", iotago.ErrAnchorOutputCyclicAddress},
	{"NFTOutputCyclicAddress", iotago.ErrNFTOutputCyclicAddress},
	{"OutputsSumExceedsTotalSupply", iotago.ErrOutputsSumExceedsTotalSupply},
	{"StorageDepositLessThanMinReturnOutputStorageDeposit", iotago.ErrStorageDepositLessThanMinReturnOutputStorageDeposit},
	{"StorageDepositExceedsTargetOutputAmount", iotago.ErrStorageDepositExceedsTargetOutputAmount},
	{"MaxManaExceeded", iotago.ErrMaxManaExceeded},
	{"ManaDecayCreationIndexExceedsTargetIndex", iotago.ErrManaDecayCreationIndexExceedsTargetIndex},
	{"TxCapabilitiesNativeTokenBurningNotAllowed", iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed},
	{"TxCapabilitiesManaBurningNotAllowed", iotago.ErrTxCapabilitiesManaBurningNotAllowed},
	{"TxCapabilitiesAccountDestructionNotAllowed", iotago.ErrTxCapabilitiesAccountDestructionNotAllowed},
	{"TxCapabilitiesAnchorDestructionNotAllowed", iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed},
	{"TxCapabilitiesFoundryDestructionNotAllowed", iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed},
	{"TxCapabilitiesNFTDestructionNotAllowed", iotago.ErrTxCapabilitiesNFTDestructionNotAllowed},
	{"SignatureUnlockNotUnique", iotago.ErrSignatureUnlockNotUnique},
	{"UnlockSignatureInvalid", iotago.ErrUnlockSignatureInvalid},
	{"MultiUnlockNotUnique", iotago.ErrMultiUnlockNotUnique},
	{"MultiAddressUnlockThresholdNotReached", iotago.ErrMultiAddressUnlockThresholdNotReached},
	{"MultiAddressLengthUnlockLengthMismatch", iotago.ErrMultiAddressLengthUnlockLengthMismatch},
	{"SignatureUnlockHasNilSignature", iotago.ErrSignatureUnlockHasNilSignature},
	{"NestedMultiUnlock", iotago.ErrNestedMultiUnlock},
	{"EmptyUnlockOutsideMultiUnlock", iotago.ErrEmptyUnlockOutsideMultiUnlock},
	{"NonUniqueUnlockConditions", iotago.ErrNonUniqueUnlockConditions},
	{"TimelockNotExpired", iotago.ErrTimelockNotExpired},
	{"ExpirationConditionZero", iotago.ErrExpirationConditionZero},
	{"TimelockConditionZero", iotago.ErrTimelockConditionZero},
	{"TimelockCommitmentInputMissing", iotago.ErrTimelockCommitmentInputMissing},
	{"ExpirationCommitmentInputMissing", iotago.ErrExpirationCommitmentInputMissing},
	{"ExpirationNotUnlockable", iotago.ErrExpirationNotUnlockable},
	{"InvalidFeatureTransition", iotago.ErrInvalidFeatureTransition},
	{"AnchorInvalidStateTransition", iotago.ErrAnchorInvalidStateTransition},
	{"AnchorInvalidGovernanceTransition", iotago.ErrAnchorInvalidGovernanceTransition},
	{"SimpleTokenSchemeTransition", iotago.ErrSimpleTokenSchemeTransition},
	{"MultiAddressUnlockInvalid", iotago.ErrMultiAddressUnlockInvalid},
	{"ReferentialUnlockInvalid", iotago.ErrReferentialUnlockInvalid},
	{"DirectUnlockableAddressUnlockInvalid", iotago.ErrDirectUnlockableAddressUnlockInvalid},
	{"ChainAddressUnlockInvalid", iotago.ErrChainAddressUnlockInvalid},
	{"UTXOInputInvalid", iotago.ErrUTXOInputInvalid},
	{"NativeTokenSetInvalid", iotago.ErrNativeTokenSetInvalid},
}
