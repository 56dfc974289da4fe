------------------------------ MODULE Builder -------------------------------
(* Builders of outputs and blocks.  What is built is a record                  *)
(*   s: scalar fields, c: unlock conditions, f: features, i: immutable features *)
(* (functions from field name / type number to a sequence of integers).        *)
(* A builder is [kind, prev, o, st, gov, err]: what it started from (or <<>>), *)
(* what it holds, whether a state or a governance change was asked for (only   *)
(* anchors), and whether a step failed (only blocks).                          *)
EXTENDS Integers, Sequences, FiniteSets

Outputs == {"basic", "account", "anchor", "foundry", "nft", "delegation"}
Blocks == {"basicblock", "validationblock"}
Kinds == Outputs \cup Blocks
\* scalar fields with a setter of that name
Setters(k) ==
  CASE k = "basic" -> {"Amount", "Mana"}
    [] k = "account" -> {"Amount", "Mana", "AccountID"}
    [] k = "anchor" -> {"Amount", "Mana", "AnchorID"}
    [] k = "foundry" -> {"Amount", "TokenScheme"}
    [] k = "nft" -> {"Amount", "Mana", "NFTID"}
    [] k = "delegation" -> {"Amount", "DelegatedAmount", "ValidatorAddress", "DelegationID", "StartEpoch", "EndEpoch"}
    [] k = "basicblock" -> {"ProtocolVersion", "IssuingTime", "SlotCommitmentID", "LatestFinalizedSlot", "Payload", "MaxBurnedMana"}
    [] k = "validationblock" -> {"ProtocolVersion", "IssuingTime", "SlotCommitmentID", "LatestFinalizedSlot", "HighestSupportedVersion", "ProtocolParametersHash"}
Parents == {"StrongParents", "WeakParents", "ShallowLikeParents"}
\* scalar fields without
Others(k) == CASE k = "account" -> {"Counter"} [] k = "anchor" -> {"StateIndex"} [] k = "foundry" -> {"Serial"} [] k \in Blocks -> Parents \cup {"Issuer", "Signature"} [] OTHER -> {}
Fields(k) == Setters(k) \cup Others(k)

\* setters of conditions and features, with the number of the type
CondOf == [Address |-> 0, StorageDepositReturn |-> 1, Timelock |-> 2, Expiration |-> 3, StateController |-> 4, Governor |-> 5]
FeatOf == [Sender |-> 0, Metadata |-> 2, StateMetadata |-> 3, Tag |-> 4, NativeToken |-> 5, BlockIssuer |-> 6, Staking |-> 7]
ImmOf == [ImmutableIssuer |-> 1, ImmutableMetadata |-> 2]
AccountCond == 6     \* immutable, of a foundry
Conds(k) == CASE k \in {"basic", "nft"} -> {"Address", "StorageDepositReturn", "Timelock", "Expiration"} [] k \in {"account", "delegation"} -> {"Address"} [] k = "anchor" -> {"StateController", "Governor"} [] OTHER -> {}
Feats(k) == CASE k = "basic" -> {"Sender", "Metadata", "Tag", "NativeToken"} [] k = "account" -> {"Sender", "Metadata", "BlockIssuer", "Staking"} [] k = "anchor" -> {"Metadata", "StateMetadata"}
              [] k = "foundry" -> {"Metadata", "NativeToken"} [] k = "nft" -> {"Sender", "Metadata", "Tag"} [] OTHER -> {}
Imms(k) == CASE k \in {"account", "anchor", "nft"} -> {"ImmutableIssuer", "ImmutableMetadata"} [] k = "foundry" -> {"ImmutableMetadata"} [] OTHER -> {}

Put(F, t, v) == [x \in DOMAIN F \cup {t} |-> IF x = t THEN v ELSE F[x]]
Drop(F, t) == [x \in DOMAIN F \ {t} |-> F[x]]
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Range(s) == {s[j] : j \in DOMAIN s}

\* features with parts: block issuer <<expiry, key ...>>, staking <<amount, cost, start, end>>
Issuer == 6   Stake == 7
Get(o, t, empty) == IF t \in DOMAIN o.f THEN o.f[t] ELSE empty
KeysOf(v) == {v[j] : j \in 2..Len(v)}
Issued(e, S) == <<e>> \o SortedSeq(S)
IssuerPart(v, m, a) ==
  CASE m = "AddKeys" -> Issued(v[1], KeysOf(v) \cup Range(a))
    [] m = "RemoveKey" -> Issued(v[1], KeysOf(v) \ Range(a))
    [] m = "Keys" -> Issued(v[1], Range(a))
    [] m = "ExpirySlot" -> Issued(a[1], KeysOf(v))
    [] m = "" -> v
StakePart(v, m, a) == CASE m = "StakedAmount" -> [v EXCEPT ![1] = a[1]] [] m = "FixedCost" -> [v EXCEPT ![2] = a[1]] [] m = "StartEpoch" -> [v EXCEPT ![3] = a[1]] [] m = "EndEpoch" -> [v EXCEPT ![4] = a[1]] [] m = "" -> v

MaxEpoch == -1
\* mana to burn, of the payload at that time; the number stands for the cost
Burn == "CalculateAndSetMaxBurnedMana"
CostAt(rmc, payload) == 100 + 20 * rmc + payload
HugeRMC == 9
\* a call is [m, a]: name (of a setter, or of a part of a transition with p = "BI", "ST") and arguments
Content(o, k) == [x \in Fields(k) \ {"Signature"} |-> o.s[x]]
Set(b, x, v) == [b EXCEPT !.o.s[x] = v]
Call(b, c) ==
  LET k == b.kind IN
  IF c.m = "Build" THEN b
  ELSE IF k \in Blocks /\ b.err THEN b
  ELSE IF c.p = "BI" THEN [b EXCEPT !.o.f = Put(b.o.f, Issuer, IssuerPart(Get(b.o, Issuer, <<0>>), c.m, c.a))]
  ELSE IF c.p = "ST" THEN [b EXCEPT !.o.f = Put(b.o.f, Stake, StakePart(Get(b.o, Stake, <<0, 0, 0, 0>>), c.m, c.a))]
  ELSE IF c.m \in Setters(k) THEN [Set(b, c.m, c.a) EXCEPT !.st = (b.st \/ (k = "anchor" /\ c.m = "Amount"))]
  ELSE IF c.m \in Conds(k) THEN [b EXCEPT !.o.c = Put(b.o.c, CondOf[c.m], c.a), !.gov = (b.gov \/ k = "anchor")]
  ELSE IF c.m \in Feats(k) THEN [b EXCEPT !.o.f = Put(b.o.f, FeatOf[c.m], IF c.m = "BlockIssuer" THEN Issued(c.a[1], KeysOf(c.a)) ELSE IF c.m = "Staking" /\ Len(c.a) = 3 THEN Append(c.a, MaxEpoch) ELSE c.a),
                                      !.st = (b.st \/ (k = "anchor" /\ c.m = "StateMetadata")), !.gov = (b.gov \/ (k = "anchor" /\ c.m = "Metadata"))]
  ELSE IF c.m \in Imms(k) THEN [b EXCEPT !.o.i = Put(b.o.i, ImmOf[c.m], c.a)]
  ELSE IF k = "account" /\ c.m = "RemoveFeature" THEN [b EXCEPT !.o.f = Drop(b.o.f, c.a[1])]
  ELSE IF k = "account" /\ c.m = "FoundriesToGenerate" THEN Set(b, "Counter", <<b.o.s["Counter"][1] + c.a[1]>>)
  ELSE IF k \in Blocks /\ c.m \in Parents THEN Set(b, c.m, SortedSeq(Range(c.a)))
  ELSE IF k = "basicblock" /\ c.m = Burn THEN IF c.a[1] = HugeRMC THEN [b EXCEPT !.err = TRUE] ELSE Set(b, "MaxBurnedMana", <<CostAt(c.a[1], b.o.s["Payload"][1])>>)
  ELSE IF k \in Blocks /\ c.m = "Sign" THEN   \* <<issuer, key, whether the signer has it>>
    IF c.a[3] = 0 THEN [Set(b, "Issuer", <<c.a[1]>>) EXCEPT !.err = TRUE]
    ELSE LET b2 == Set(b, "Issuer", <<c.a[1]>>) IN [Set(b2, "Signature", <<c.a[2]>>) EXCEPT !.sealed = Content(b2.o, k)]
  ELSE b

\* what Build gives
Fails(b) == b.err \/ (b.prev # <<>> /\ (b.o.i # b.prev[1].i \/ (b.kind = "anchor" /\ b.st /\ b.gov)))
Built(b) == IF b.kind = "anchor" /\ b.prev # <<>> /\ b.st THEN [b.o EXCEPT !.s["StateIndex"] = <<b.prev[1].s["StateIndex"][1] + 1>>] ELSE b.o
\* the signature of a block is one of its content, by that key
Verifies(b) == b.kind \in Blocks /\ b.sealed # <<>> /\ b.sealed = Content(b.o, b.kind)
From(k, start, prev) == [kind |-> k, prev |-> IF prev THEN <<start>> ELSE <<>>, o |-> start, st |-> FALSE, gov |-> FALSE, err |-> FALSE, sealed |-> <<>>]

\* after the first n calls
RECURSIVE After(_, _, _)
After(b, cs, n) == IF n = 0 THEN b ELSE Call(After(b, cs, n - 1), cs[n])
=============================================================================
