------------------------------- MODULE Reasons ------------------------------
(* Why a transaction failed, as told to users: which reasons each broken rule  *)
(* may be reported as, which reason an error stands for, and the byte and text *)
(* forms of states and reasons.                                                *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- rules of the ledger -> reasons ---- *)
Signed == {5, 6, 7, 8, 24, 25}
ReasonsOf(rule) ==
  CASE rule = "V01:base tokens not balanced" -> {14}
    [] rule = "V01:storage deposit not returned" -> {45}
    [] rule = "V02,V12:tokens burned without capability" -> {64}
    [] rule = "V02:maximum supply changed" -> {22}
    [] rule = "V02:new foundry supply" -> {23}
    [] rule = "V02:supply counters decreased" -> {19}
    [] rule = "V02:supply counters" -> {20, 21, 255}
    [] rule = "V02:token sum overflow" -> {255}
    [] rule = "V02:tokens from nowhere" -> {18}
    [] rule = "V02:tokens left of a destroyed foundry" -> {18}
    [] rule = "V03,V12:mana burned without capability" -> {65}
    [] rule = "V03:input created after the transaction" -> {4, 17}
    [] rule = "V03:mana from nowhere" -> {16}
    [] rule = "V03:mana overflow" -> {15}
    [] rule \in {"V04,V05:no address to unlock"} -> {43, 44}
    [] rule \in {"V04,V06:no address to unlock"} -> {255}
    [] rule \in {"V04:not unlocked", "V04,V05:not unlocked", "V04,V06:not unlocked"} -> Signed
    [] rule = "V05:timelock not expired" -> {41, 42}
    [] rule = "V06,V12:account destroyed without capability" -> {66}
    [] rule = "V06,V12:anchor destroyed without capability" -> {67}
    [] rule = "V06,V12:foundry destroyed without capability" -> {68}
    [] rule = "V06,V12:NFT destroyed without capability" -> {69}
    [] rule \in {"V06:amount changed by governor", "V06:state changed by governor"} -> {52}
    [] rule \in {"V06:controllers changed by state controller", "V06:metadata changed by state controller"} -> {51}
    [] rule = "V06:state index" -> {51, 52}
    [] rule = "V06:chain output without chain" -> {46}
    [] rule = "V06:immutable features changed" -> {47}
    [] rule \in {"V07:foundry counter", "V07,V11:foundry counter"} -> {50}
    [] rule \in {"V07:foundry serial outside of counter", "V07:foundry serials not ascending"} -> {54}
    [] rule = "V07:foundry without account" -> {53}
    [] rule \in {"V08:block issuance credit", "V08,V11:block issuance credit"} -> {36, 40}
    [] rule \in {"V08:active issuer destroyed", "V08:active issuer removed"} -> {37}
    [] rule = "V08:commitment missing" -> {35}
    [] rule = "V08:issuer expires too early" -> {38}
    [] rule = "V08:mana moved off the account" -> {39}
    [] rule = "V09:active staking modified" -> {32}
    [] rule = "V09:active staking removed" -> {31}
    [] rule = "V09:commitment missing" -> {29}
    [] rule = "V09:feature removed without claiming" -> {28}
    [] rule = "V09:rewards claimed without removing the feature" -> {30}
    [] rule = "V09:staking ends too early" -> {34}
    [] rule = "V09:staking period" -> {33, 34}
    [] rule = "V10:commitment missing" -> {55}
    [] rule = "V10:destroyed without claiming rewards" -> {56}
    [] rule = "V10:rewards claimed by transition" -> {57}
    [] rule = "V10:transitioned twice" -> {58}
    [] rule = "V10:delegation modified" -> {59}
    [] rule = "V10:start epoch" -> {60}
    [] rule = "V10:delegated amount" -> {61}
    [] rule = "V10:end epoch of new delegation" -> {62}
    [] rule = "V10:end epoch" -> {63}
    [] rule = "V11:implicit account destroyed" -> {48}
    [] rule = "V11:more than one implicit account" -> {49}
    [] rule = "V13:sender not unlocked" -> {26}
    [] rule = "V13:issuer not unlocked" -> {27}
    [] OTHER -> 0..255

(* ---- errors -> reasons ---- *)
Named == <<
  <<"TxConflictRejected", 1>>, <<"TxOrphaned", 2>>, <<"InputAlreadySpent", 3>>, <<"InputCreationAfterTxCreation", 4>>, <<"UnlockSignatureInvalid", 5>>,
  <<"ChainAddressUnlockInvalid", 6>>, <<"DirectUnlockableAddressUnlockInvalid", 7>>, <<"MultiAddressUnlockInvalid", 8>>,
  <<"CommitmentInputReferenceInvalid", 9>>, <<"BICInputReferenceInvalid", 10>>, <<"RewardInputReferenceInvalid", 11>>,
  <<"StakingRewardCalculationFailure", 12>>, <<"DelegationRewardCalculationFailure", 13>>,
  <<"InputOutputBaseTokenMismatch", 14>>, <<"ManaOverflow", 15>>, <<"InputOutputManaMismatch", 16>>, <<"ManaDecayCreationIndexExceedsTargetIndex", 17>>,
  <<"NativeTokenSumUnbalanced", 18>>, <<"SimpleTokenSchemeMintedMeltedTokenDecrease", 19>>, <<"SimpleTokenSchemeMintingInvalid", 20>>, <<"SimpleTokenSchemeMeltingInvalid", 21>>,
  <<"SimpleTokenSchemeMaximumSupplyChanged", 22>>, <<"SimpleTokenSchemeGenesisInvalid", 23>>,
  <<"MultiAddressLengthUnlockLengthMismatch", 24>>, <<"MultiAddressUnlockThresholdNotReached", 25>>, <<"SenderFeatureNotUnlocked", 26>>, <<"IssuerFeatureNotUnlocked", 27>>,
  <<"StakingRewardInputMissing", 28>>, <<"StakingCommitmentInputMissing", 29>>, <<"StakingRewardClaimingInvalid", 30>>, <<"StakingFeatureRemovedBeforeUnbonding", 31>>,
  <<"StakingFeatureModifiedBeforeUnbonding", 32>>, <<"StakingStartEpochInvalid", 33>>, <<"StakingEndEpochTooEarly", 34>>,
  <<"BlockIssuerCommitmentInputMissing", 35>>, <<"BlockIssuanceCreditInputMissing", 36>>, <<"BlockIssuerNotExpired", 37>>, <<"BlockIssuerExpiryTooEarly", 38>>,
  <<"ManaMovedOffBlockIssuerAccount", 39>>, <<"AccountLocked", 40>>, <<"TimelockCommitmentInputMissing", 41>>, <<"TimelockNotExpired", 42>>,
  <<"ExpirationCommitmentInputMissing", 43>>, <<"ExpirationNotUnlockable", 44>>, <<"ReturnAmountNotFulFilled", 45>>, <<"NewChainOutputHasNonZeroedID", 46>>,
  <<"ChainOutputImmutableFeaturesChanged", 47>>, <<"ImplicitAccountDestructionDisallowed", 48>>, <<"MultipleImplicitAccountCreationAddresses", 49>>,
  <<"AccountInvalidFoundryCounter", 50>>, <<"AnchorInvalidStateTransition", 51>>, <<"AnchorInvalidGovernanceTransition", 52>>, <<"FoundryTransitionWithoutAccount", 53>>,
  <<"FoundrySerialInvalid", 54>>, <<"DelegationCommitmentInputMissing", 55>>, <<"DelegationRewardInputMissing", 56>>, <<"DelegationRewardsClaimingInvalid", 57>>,
  <<"DelegationOutputTransitionedTwice", 58>>, <<"DelegationModified", 59>>, <<"DelegationStartEpochInvalid", 60>>, <<"DelegationAmountMismatch", 61>>,
  <<"DelegationEndEpochNotZero", 62>>, <<"DelegationEndEpochInvalid", 63>>, <<"TxCapabilitiesNativeTokenBurningNotAllowed", 64>>, <<"TxCapabilitiesManaBurningNotAllowed", 65>>,
  <<"TxCapabilitiesAccountDestructionNotAllowed", 66>>, <<"TxCapabilitiesAnchorDestructionNotAllowed", 67>>, <<"TxCapabilitiesFoundryDestructionNotAllowed", 68>>,
  <<"TxCapabilitiesNFTDestructionNotAllowed", 69>> >>
Known == {Named[j][1] : j \in DOMAIN Named}
Generic == 255
CodeOf(name) == Named[CHOOSE j \in DOMAIN Named : Named[j][1] = name][2]

\* an error is a tree: leaf(e), or what is wrapped (s), from the general to the particular, "nil" for a child that is none
RECURSIVE Leaves(_)
RECURSIVE LeavesOf(_, _)
LeavesOf(s, j) == IF j > Len(s) THEN <<>> ELSE Leaves(s[j]) \o LeavesOf(s, j + 1)
Leaves(t) == IF t.o = "leaf" THEN <<t.e>> ELSE LeavesOf(t.s, 1)
\* the most detailed error that has a reason tells it
RECURSIVE LastKnown(_, _)
LastKnown(l, j) == IF j = 0 THEN Generic ELSE IF l[j] \in Known THEN CodeOf(l[j]) ELSE LastKnown(l, j - 1)
ReasonOf(t) == LET l == Leaves(t) IN LastKnown(l, Len(l))

(* ---- forms of states and reasons ---- *)
Names == [block |-> <<"unknown", "pending", "accepted", "confirmed", "finalized", "dropped", "orphaned">>,
          tx    |-> <<"unknown", "pending", "accepted", "committed", "finalized", "failed">>]
Valued(kind, v) == v < Len(Names[kind])
NameOf(kind, v) == Names[kind][v + 1]
Values(kind, name) == {v \in 0..(Len(Names[kind]) - 1) : NameOf(kind, v) = name}
=============================================================================
