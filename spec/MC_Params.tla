----------------------------- MODULE MC_Params ------------------------------
(* Parameters are made by options in sequence; sane ones keep the promises the *)
(* rules are for.  Emits every sequence for replay on the real code.            *)
EXTENDS Params, Json
CONSTANTS MaxOpts, Durs, Exps

Small == [n \in Names |-> FromInt(7)]
Start == [n \in Names |->
  CASE n \in {"NetworkName", "Bech32HRP"} -> <<116, 115, 116>>
    [] n = "DecayFactors" -> <<FromInt(900), FromInt(810)>>
    [] n = "GenerationRateExponent" -> FromInt(17) [] n = "BitsCount" -> FromInt(63) [] n = "GenerationRate" -> One [] n = "DecayFactorEpochsSumExponent" -> Zero
    [] n = "DecayFactorsExponent" -> FromInt(32) [] n = "AnnualDecayFactorPercentage" -> FromInt(70) [] n = "TokenSupply" -> Pow2(50)
    [] n = "SchedulerRate" -> FromInt(50000000) [] n = "IncreaseThreshold" -> FromInt(40) [] n = "DecreaseThreshold" -> FromInt(20)
    [] n = "ValidationBlocksPerSlot" -> FromInt(10) [] n = "RewardToGenerationRatio" -> FromInt(2) [] n = "PoolCoefficientExponent" -> FromInt(11)
    [] OTHER -> FromInt(7)]
S(o, a) == [o |-> o, a |-> a]
N2(x) == FromInt(x)
Live(d, e) ==
  {S("liveness", <<N2(lo), N2(up), N2(min), N2(max), N2(near)>>) :
     lo \in {d - 1, d}, up \in {d - 1, d, 2 * d - 1, 2 * d}, min \in {1, 2}, max \in {2, 3}, near \in {3, 4, 2^e - 1, 2^e}}
Rates(d) == {N2(3), DivSmall(Pow2(32), d), Add(DivSmall(Pow2(32), d), One)}
Congestion(d) ==
  UNION {LET c == MulSmall(q, d) IN
         {S("congestion", <<One, One, One, inc, dec, q, N2(9), N2(9)>>) : inc \in {x \in {Sub(c, One), c, Add(c, One), N2(5)} : Lt(x, Pow2(32))}, dec \in {x \in {N2(5), N2(6), c} : Lt(x, Pow2(32))}} : q \in Rates(d)}
Other == {S("staking", <<N2(10), N2(v), N2(10)>>) : v \in {0, 32, 33}}
    \cup {S("rewards", <<N2(8), N2(p), N2(q), N2(384)>>) : p \in {0, 13, 14, 64}, q \in {2, 255}}
    \cup {S("supply", <<t, N2(63), One, N2(17), N2(32), Zero, N2(70)>>) : t \in {One, Sub(Pow2(50), One), Pow2(50), Sub(Pow2(51), One)}}
    \cup {S("supply", <<Pow2(40), N2(b), One, N2(g), N2(32), Zero, N2(p)>>) : b \in {40, 63}, g \in {1, 2, 17}, p \in {50, 99}}
    \cup {S("version", <<N2(4)>>), S("switching", <<N2(5)>>), S("committee", <<N2(6)>>), S("signaling", <<N2(1), N2(2), N2(3)>>)}

VARIABLES d, e, opts
vars == <<d, e, opts>>
T == S("time", <<N2(5), MulSmall(N2(170000), 10000), N2(d), N2(e)>>)
Init == d \in Durs /\ e \in Exps /\ opts = <<S("supply", <<Pow2(50), N2(63), One, N2(17), N2(32), Zero, N2(70)>>), T, S("liveness", <<N2(d), N2(d), N2(2), N2(3), N2(4)>>)>>
\* of the larger groups one option, of the others any
Big == {"liveness", "congestion"}
Next == Len(opts) < 3 + MaxOpts
        /\ \E x \in Other \cup (IF \E j \in 4..Len(opts) : opts[j].o \in Big THEN {} ELSE Live(d, e) \cup Congestion(d)) : opts' = Append(opts, x)
        /\ UNCHANGED <<d, e>>
Spec == Init /\ [][Next]_vars

f == After(Start, opts, 1)
Sane == Violated(f) = {}
\* the order of two options of different kinds does not matter; of two of one kind the later counts
Swap(j) == [k \in DOMAIN opts |-> IF k = j THEN opts[j + 1] ELSE IF k = j + 1 THEN opts[j] ELSE opts[k]]
OrderLaw == \A j \in 1..(Len(opts) - 1) : IF opts[j].o = opts[j + 1].o THEN Set(Set(Start, opts[j]), opts[j + 1]) = Set(Start, opts[j + 1])
                                          ELSE After(Start, Swap(j), 1) = f
CodecLaw == LET q == Decode(Encode(f)) IN \A j \in DOMAIN Layout : q[j] = f[Layout[j].n]
\* of sane parameters:
\* a slot still acceptable as commitment lies in the same epoch or the one before
AgeLaw == Sane => LET max == I(f, "MaxCommittableAge")  len == 2 ^ I(f, "SlotsPerEpochExponent") IN
                  \A s \in max..(3 * len) : (s \div len) - ((s - max) \div len) \in {0, 1}
\* a new committee is selected within the epoch before it, after the epoch has begun, from a committed slot
NearLaw == Sane => LET near == I(f, "EpochNearingThreshold") len == 2 ^ I(f, "SlotsPerEpochExponent") IN len - near >= 1 /\ len - near + I(f, "MaxCommittableAge") < len
\* a block that still counts as alive is not in a committed slot
LiveLaw == Sane => Lt(f["LivenessThresholdUpperBoundInSeconds"], Mul(f["MinCommittableAge"], f["SlotDurationInSeconds"])) /\ Leq(f["LivenessThresholdLowerBoundInSeconds"], f["LivenessThresholdUpperBoundInSeconds"])
\* congestion cannot both rise and fall
CostLaw == Sane => Leq(f["DecreaseThreshold"], f["IncreaseThreshold"]) /\ Leq(f["IncreaseThreshold"], Mul(f["SchedulerRate"], f["SlotDurationInSeconds"]))
\* stake times the pool coefficient fits 64 bits
PoolLaw == Sane => Leq(ShiftL(f["TokenSupply"], I(f, "PoolCoefficientExponent")), MaxU64)
Emit == PrintT("CASE " \o ToJson([op |-> "construct", opts |-> opts]))
=============================================================================
