------------------------------- MODULE Params -------------------------------
(* Protocol parameters: a record of named fields, the options that set them,   *)
(* their encoding, and the rules sane parameters follow.  Numbers are BigNats,  *)
(* names sequences of bytes, the table of decay factors a sequence of numbers.  *)
EXTENDS BigNat, FiniteSets, TLC

\* ------------------------------------------------------------------ layout ---
\* a field and its width in bytes; 0: name with a length byte, -1: table with two length bytes
F(n, k) == [n |-> n, k |-> k]
Kind == 0                          \* first byte
Layout == <<
  F("Version", 1), F("NetworkName", 0), F("Bech32HRP", 0),
  F("StorageCost", 8), F("FactorData", 1), F("OffsetOutputOverhead", 8), F("OffsetEd25519BlockIssuerKey", 8), F("OffsetStakingFeature", 8), F("OffsetDelegation", 8),
  F("DataByte", 4), F("Block", 4), F("Input", 4), F("ContextInput", 4), F("Output", 4), F("NativeToken", 4), F("Staking", 4), F("BlockIssuer", 4), F("Allotment", 4), F("SignatureEd25519", 4),
  F("BitsCount", 1), F("GenerationRate", 1), F("GenerationRateExponent", 1), F("DecayFactors", -1), F("DecayFactorsExponent", 1), F("DecayFactorEpochsSum", 4), F("DecayFactorEpochsSumExponent", 1), F("AnnualDecayFactorPercentage", 1),
  F("TokenSupply", 8), F("GenesisSlot", 4), F("GenesisUnixTimestamp", 8), F("SlotDurationInSeconds", 1), F("SlotsPerEpochExponent", 1),
  F("StakingUnbondingPeriod", 4), F("ValidationBlocksPerSlot", 1), F("PunishmentEpochs", 4),
  F("LivenessThresholdLowerBoundInSeconds", 2), F("LivenessThresholdUpperBoundInSeconds", 2), F("MinCommittableAge", 4), F("MaxCommittableAge", 4), F("EpochNearingThreshold", 4),
  F("MinReferenceManaCost", 8), F("Increase", 8), F("Decrease", 8), F("IncreaseThreshold", 4), F("DecreaseThreshold", 4), F("SchedulerRate", 4), F("MaxBufferSize", 4), F("MaxValidationBufferSize", 4),
  F("WindowSize", 1), F("WindowTargetRatio", 1), F("ActivationOffset", 1),
  F("ProfitMarginExponent", 1), F("BootstrappingDuration", 4), F("RewardToGenerationRatio", 1), F("InitialTargetRewardsRate", 8), F("FinalTargetRewardsRate", 8), F("PoolCoefficientExponent", 1), F("RetentionPeriod", 2),
  F("TargetCommitteeSize", 1), F("ChainSwitchingThreshold", 1) >>
Names == {Layout[j].n : j \in DOMAIN Layout}
ASSUME Cardinality(Names) = Len(Layout)

RECURSIVE LE(_, _)
LE(x, k) == IF k = 0 THEN <<>> ELSE <<ModSmall(x, 256)>> \o LE(DivSmall(x, 256), k - 1)
RECURSIVE Table(_, _)
Table(t, j) == IF j > Len(t) THEN <<>> ELSE LE(t[j], 4) \o Table(t, j + 1)
Field(f, it) == IF it.k = 0 THEN <<Len(f[it.n])>> \o f[it.n]
                ELSE IF it.k = -1 THEN LE(FromInt(Len(f[it.n])), 2) \o Table(f[it.n], 1)
                ELSE LE(f[it.n], it.k)
RECURSIVE EncFrom(_, _)
EncFrom(f, j) == IF j > Len(Layout) THEN <<>> ELSE Field(f, Layout[j]) \o EncFrom(f, j + 1)
Encode(f) == <<Kind>> \o EncFrom(f, 1)

\* and back
RECURSIVE FromLE(_, _, _)
FromLE(b, at, k) == IF k = 0 THEN Zero ELSE Add(FromInt(b[at]), MulSmall(FromLE(b, at + 1, k - 1), 256))
RECURSIVE DecFrom(_, _, _)
DecFrom(b, at, j) ==
  IF j > Len(Layout) THEN (IF at = Len(b) + 1 THEN <<>> ELSE <<"rest">>)
  ELSE LET it == Layout[j] IN
       IF it.k = 0 THEN <<SubSeq(b, at + 1, at + b[at])>> \o DecFrom(b, at + 1 + b[at], j + 1)
       ELSE IF it.k = -1 THEN LET n == ToInt(FromLE(b, at, 2)) IN <<SubSeq([m \in 1..n |-> FromLE(b, at + 2 + 4 * (m - 1), 4)], 1, n)>> \o DecFrom(b, at + 2 + 4 * n, j + 1)
       ELSE <<FromLE(b, at, it.k)>> \o DecFrom(b, at + it.k, j + 1)
Decode(b) == DecFrom(b, 2, 1)

\* ----------------------------------------------------------------- options ---
Opt == [ version    |-> <<"Version">>,
         network    |-> <<"NetworkName", "Bech32HRP">>,
         storage    |-> <<"StorageCost", "FactorData", "OffsetOutputOverhead", "OffsetEd25519BlockIssuerKey", "OffsetStakingFeature", "OffsetDelegation">>,
         work       |-> <<"DataByte", "Block", "Input", "ContextInput", "Output", "NativeToken", "Staking", "BlockIssuer", "Allotment", "SignatureEd25519">>,
         time       |-> <<"GenesisSlot", "GenesisUnixTimestamp", "SlotDurationInSeconds", "SlotsPerEpochExponent">>,
         liveness   |-> <<"LivenessThresholdLowerBoundInSeconds", "LivenessThresholdUpperBoundInSeconds", "MinCommittableAge", "MaxCommittableAge", "EpochNearingThreshold">>,
         supply     |-> <<"TokenSupply", "BitsCount", "GenerationRate", "GenerationRateExponent", "DecayFactorsExponent", "DecayFactorEpochsSumExponent", "AnnualDecayFactorPercentage">>,
         congestion |-> <<"MinReferenceManaCost", "Increase", "Decrease", "IncreaseThreshold", "DecreaseThreshold", "SchedulerRate", "MaxBufferSize", "MaxValidationBufferSize">>,
         staking    |-> <<"StakingUnbondingPeriod", "ValidationBlocksPerSlot", "PunishmentEpochs">>,
         signaling  |-> <<"WindowSize", "WindowTargetRatio", "ActivationOffset">>,
         rewards    |-> <<"ProfitMarginExponent", "PoolCoefficientExponent", "RewardToGenerationRatio", "RetentionPeriod">>,
         committee  |-> <<"TargetCommitteeSize">>,
         switching  |-> <<"ChainSwitchingThreshold">> ]
Derived == {"DecayFactors", "DecayFactorEpochsSum", "BootstrappingDuration", "InitialTargetRewardsRate", "FinalTargetRewardsRate"}
\* every field that is not derived is set by exactly one option
ASSUME \A n \in Names \ Derived : Cardinality({<<o, j>> \in (DOMAIN Opt) \X (1..10) : j <= Len(Opt[o]) /\ Opt[o][j] = n}) = 1

Set(f, s) == LET ns == Opt[s.o] IN [n \in DOMAIN f |-> IF \E j \in DOMAIN ns : ns[j] = n THEN s.a[CHOOSE j \in DOMAIN ns : ns[j] = n] ELSE f[n]]
RECURSIVE After(_, _, _)
After(f, opts, j) == IF j > Len(opts) THEN f ELSE After(Set(f, opts[j]), opts, j + 1)

\* ------------------------------------------------------------------ sanity ---
\* the annual decay factor is from 1 to 99 percent and slots take time
RECURSIVE Bits(_)
Bits(x) == IF x = Zero THEN 0 ELSE 1 + Bits(DivSmall(x, 2))
I(f, n) == ToInt(f[n])
Year == FromInt(31536000)
\* - ln(p / 100) * 10^8
Beta == << 460517019, 391202301, 350655790, 321887582, 299573227, 281341072, 265926004, 252572864, 240794561, 230258509, 220727491, 212026354, 204022083, 196611286, 189711998, 183258146, 177195684, 171479843, 166073121, 160943791, 156064775, 151412773, 146967597, 142711636, 138629436, 134707365, 130933332, 127296568, 123787436, 120397280, 117118298, 113943428, 110866262, 107880966, 104982212, 102165125, 99425227, 96758403, 94160854, 91629073, 89159812, 86750057, 84397007, 82098055, 79850770, 77652879, 75502258, 73396918, 71334989, 69314718, 67334455, 65392647, 63487827, 61618614, 59783700, 57981850, 56211892, 54472718, 52763274, 51082562, 49429632, 47803580, 46203546, 44628710, 43078292, 41551544, 40047757, 38566248, 37106368, 35667494, 34249031, 32850407, 31471074, 30110509, 28768207, 27443685, 26136476, 24846136, 23572233, 22314355, 21072103, 19845094, 18632958, 17435339, 16251893, 15082289, 13926207, 12783337, 11653382, 10536052, 9431068, 8338161, 7257069, 6187540, 5129329, 4082199, 3045921, 2020271, 1005034 >>
Big8 == MulSmall(FromInt(100000), 1000)
\* seconds per epoch; as a share of a year over beta this is the reciprocal of the sum of decay factors
EpochSec(f) == MulSmall(Pow2(I(f, "SlotsPerEpochExponent")), I(f, "SlotDurationInSeconds"))
BetaOf(f) == FromInt(Beta[I(f, "AnnualDecayFactorPercentage")])
\* x < y for certain, or for certain not, if they are less than a ten-thousandth apart: unknown
Sure(x, y) == Lt(MulSmall(x, 10001), MulSmall(y, 10000))
\* sum of the decay factors of all epochs, scaled: 2^e * year / (beta * epoch) as a fraction
SumNum(f) == Mul(ShiftL(Year, I(f, "DecayFactorEpochsSumExponent")), Big8)
SumDen(f) == Mul(BetaOf(f), EpochSec(f))
\* ... and of one epoch less than it at most
SumLow(f) == Monus(SumNum(f), ShiftL(SumDen(f), I(f, "DecayFactorEpochsSumExponent")))

SupplyNum(f) == Mul(Mul(Mul(MulSmall(f["TokenSupply"], 21), f["GenerationRate"]), Year), Big8)
SupplyDen(f) == Mul(ShiftL(BetaOf(f), I(f, "BitsCount") + I(f, "GenerationRateExponent")), FromInt(I(f, "SlotDurationInSeconds")))
RewardNum(f) == Mul(Mul(f["TokenSupply"], f["RewardToGenerationRatio"]), f["GenerationRate"])

\* reward per epoch at the start: the final one times e, or up to one epoch's decay less
FinalRate(f) == ShiftR(RewardNum(f), I(f, "GenerationRateExponent") - I(f, "SlotsPerEpochExponent"))
InitialHigh(f) == Mul(FinalRate(f), FromInt(271828183))
RewardFits(f) == Lt(InitialHigh(f), Mul(Pow2(64), Big8))
RewardOverflows(f) == I(f, "GenerationRateExponent") >= I(f, "SlotsPerEpochExponent") /\
  LET yr == Mul(Year, Big8) IN Sure(Mul(Mul(Pow2(64), Big8), yr), Mul(Mul(FinalRate(f), FromInt(271828182)), Monus(yr, Mul(BetaOf(f), EpochSec(f)))))

Violated(f) ==
  LET dur == f["SlotDurationInSeconds"]
      capacity == Mul(dur, f["SchedulerRate"])
      r(b, n) == IF b THEN {n} ELSE {}
  IN UNION {
    r(Lt(f["LivenessThresholdUpperBoundInSeconds"], f["LivenessThresholdLowerBoundInSeconds"]), "liveness bounds"),
    r(Leq(Mul(f["MinCommittableAge"], dur), f["LivenessThresholdUpperBoundInSeconds"]), "liveness before committable"),
    r(Leq(f["MaxCommittableAge"], f["MinCommittableAge"]), "committable ages"),
    r(Leq(f["EpochNearingThreshold"], f["MaxCommittableAge"]), "nearing threshold"),
    r(Leq(Pow2(I(f, "SlotsPerEpochExponent")), f["EpochNearingThreshold"]), "epoch length"),
    r(Lt(capacity, f["IncreaseThreshold"]), "increase threshold"),
    r(Lt(capacity, f["DecreaseThreshold"]), "decrease threshold"),
    r(Lt(f["IncreaseThreshold"], f["DecreaseThreshold"]), "threshold order"),
    r(Bits(f["TokenSupply"]) + I(f, "PoolCoefficientExponent") > 64, "pool coefficient"),
    r(I(f, "ValidationBlocksPerSlot") > 32, "validation blocks"),
    r(I(f, "SlotsPerEpochExponent") > 31, "epoch exponent"),
    r(I(f, "GenerationRateExponent") < I(f, "SlotsPerEpochExponent"), "generation exponent"),
    r(Lt(MaxU64, RewardNum(f)) \/ Lt(MaxU64, Mul(f["TokenSupply"], f["RewardToGenerationRatio"])), "reward overflow"),
    r(RewardOverflows(f), "initial reward"),
    r(Sure(SupplyDen(f), SupplyNum(f)), "mana supply"),
    r(Sure(ShiftL(SumDen(f), 32), Mul(SumLow(f), f["GenerationRate"])), "epochs sum") }
\* decided by less than the precision of this specification
Unsure(f) ==
  \/ I(f, "GenerationRateExponent") >= I(f, "SlotsPerEpochExponent") /\ ~RewardFits(f) /\ ~RewardOverflows(f)
  \/ ~Sure(SupplyDen(f), SupplyNum(f)) /\ ~Sure(SupplyNum(f), SupplyDen(f))
  \/ ~Sure(ShiftL(SumDen(f), 32), Mul(SumLow(f), f["GenerationRate"])) /\ ~Sure(Mul(SumNum(f), f["GenerationRate"]), ShiftL(SumDen(f), 32))
\* the sum itself does not fit its 32 bits
SumWraps(f) == Sure(ShiftL(SumDen(f), 32), SumLow(f))

\* ----------------------------------------------------------------- derived ---
TableLen(f) == LET es == EpochSec(f) IN IF Lt(Year, es) THEN 0 ELSE LET n == ToInt(IF Leq(es, FromInt(100000)) THEN DivSmall(Year, ToInt(es)) ELSE FromInt(31536000 \div ToInt(es))) IN IF n > 65535 THEN 65535 ELSE n
=============================================================================
