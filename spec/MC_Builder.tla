----------------------------- MODULE MC_Builder -----------------------------
(* Every sequence of builder calls up to a length, from new and from previous  *)
(* outputs; the laws of building hold on the specification, the sequences are  *)
(* replayed on the real builders.                                              *)
EXTENDS Builder, TLC, Json
CONSTANTS MaxCalls, Wide

P(m, a) == [p |-> "", m |-> m, a |-> a]
V == IF Wide THEN {1, 2, 3} ELSE {1, 2}
One(M) == {P(m, <<v>>) : m \in M, v \in V}
Calls(k) ==
  {P("Build", <<>>)} \cup
  CASE k = "basic" -> One({"Amount", "Mana", "Address", "Sender", "Metadata", "Tag", "Timelock"}) \cup {P("StorageDepositReturn", <<1, v>>) : v \in V} \cup {P("Expiration", <<v, 2>>) : v \in V} \cup {P("NativeToken", <<1, v>>) : v \in V}
    [] k = "nft" -> One({"Amount", "Mana", "NFTID", "Address", "Sender", "Metadata", "Tag", "Timelock", "ImmutableIssuer", "ImmutableMetadata"}) \cup {P("StorageDepositReturn", <<v, 1>>) : v \in V} \cup {P("Expiration", <<1, v>>) : v \in V}
    [] k = "account" -> One({"Amount", "Mana", "AccountID", "Address", "Sender", "Metadata", "ImmutableIssuer", "ImmutableMetadata", "FoundriesToGenerate"})
         \cup {P("BlockIssuer", <<7, 2>>), P("BlockIssuer", <<8, 1, 3>>), P("Staking", <<5, 1, 2>>), P("Staking", <<6, 1, 2, 9>>), P("RemoveFeature", <<Issuer>>), P("RemoveFeature", <<Stake>>), P("RemoveFeature", <<0>>)}
         \cup {[p |-> "BI", m |-> m, a |-> a] : m \in {"AddKeys", "Keys"}, a \in {<<1>>, <<2>>, <<1, 2>>}} \cup {[p |-> "BI", m |-> "RemoveKey", a |-> <<v>>] : v \in {1, 2}} \cup {[p |-> "BI", m |-> "ExpirySlot", a |-> <<9>>], [p |-> "BI", m |-> "", a |-> <<>>]}
         \cup {[p |-> "ST", m |-> m, a |-> <<4>>] : m \in {"StakedAmount", "FixedCost", "StartEpoch", "EndEpoch"}} \cup {[p |-> "ST", m |-> "", a |-> <<>>]}
    [] k = "anchor" -> One({"Amount", "Mana", "AnchorID", "StateController", "Governor", "Metadata", "StateMetadata", "ImmutableIssuer", "ImmutableMetadata"})
    [] k = "foundry" -> One({"Amount", "Metadata", "ImmutableMetadata"}) \cup {P("NativeToken", <<1, v>>) : v \in V} \cup {P("TokenScheme", <<3, v, 9>>) : v \in V}
    [] k = "delegation" -> One({"Amount", "DelegatedAmount", "ValidatorAddress", "DelegationID", "StartEpoch", "EndEpoch", "Address"})
    [] k = "basicblock" -> One({"ProtocolVersion", "IssuingTime", "SlotCommitmentID", "LatestFinalizedSlot", "Payload", "MaxBurnedMana"}) \cup {P(Burn, <<v>>) : v \in V \cup {HugeRMC}} \cup {P(m, a) : m \in Parents, a \in {<<2, 1>>, <<1, 1>>}} \cup {P("Sign", <<1, 1, 1>>), P("Sign", <<2, 3, 1>>), P("Sign", <<1, 2, 0>>)}
    [] k = "validationblock" -> One({"ProtocolVersion", "IssuingTime", "SlotCommitmentID", "LatestFinalizedSlot", "HighestSupportedVersion", "ProtocolParametersHash"}) \cup {P(m, a) : m \in Parents, a \in {<<2, 1>>, <<1, 1>>}} \cup {P("Sign", <<1, 1, 1>>), P("Sign", <<2, 3, 1>>), P("Sign", <<1, 2, 0>>)}

Scalar(k, x, v) == IF x = "TokenScheme" THEN <<v, 0, 9>> ELSE IF x \in Parents THEN <<>> ELSE <<v>>
\* starts: a new one, one with nothing optional, one with everything
CondsOf(k, all) == LET T == {CondOf[m] : m \in Conds(k)} IN
  IF k = "foundry" THEN [x \in {AccountCond} |-> <<5>>] ELSE [x \in (IF all THEN T ELSE T \cap {0, 4, 5}) |-> IF x \in {1, 3} THEN <<3, 4>> ELSE <<5>>]
Start(k, all) ==
  [s |-> [x \in Fields(k) |-> Scalar(k, x, IF all THEN 6 ELSE 5)], c |-> CondsOf(k, all),
   f |-> IF all THEN [x \in {FeatOf[m] : m \in Feats(k)} |-> IF x = 5 THEN <<1, 4>> ELSE IF x = Issuer THEN <<4, 2, 3>> ELSE IF x = Stake THEN <<1, 2, 3, 4>> ELSE <<5>>] ELSE <<>>,
   i |-> IF all THEN [x \in {ImmOf[m] : m \in Imms(k)} |-> <<1>>] ELSE <<>>]
\* the constructor's own
New(k) ==
  [s |-> [x \in Fields(k) |-> IF x = "Amount" THEN <<7>> ELSE IF x = "Serial" THEN <<4>> ELSE IF x = "ValidatorAddress" THEN <<3>> ELSE IF x = "TokenScheme" THEN <<5, 1, 9>>
        ELSE IF x = "ProtocolVersion" \/ (x = "IssuingTime") THEN <<-1>> ELSE IF x = "Signature" THEN <<0>> ELSE IF x \in Parents THEN <<>> ELSE IF x \in {"SlotCommitmentID"} THEN <<-1>> ELSE <<0>>],
   c |-> IF k \in Blocks THEN <<>> ELSE CondsOf(k, FALSE), f |-> <<>>, i |-> <<>>]

VARIABLES b, calls
vars == <<b, calls>>
Init == calls = <<>> /\ \E k \in Kinds, st \in {"new", "plain", "full"} :
          IF st = "new" THEN b = From(k, New(k), FALSE) ELSE k \in Outputs /\ b = From(k, Start(k, st = "full"), TRUE)
Next == Len(calls) < MaxCalls /\ \E c \in Calls(b.kind) : b' = Call(b, c) /\ calls' = Append(calls, c)
Spec == Init /\ [][Next]_vars

Begin == IF b.prev # <<>> THEN b.prev[1] ELSE New(b.kind)
\* last call that sets a field, 0: none
LastOf(T(_)) == LET S == {j \in DOMAIN calls : T(calls[j])} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* fields nobody touched are kept, others have the value asked for last
Kept ==
  /\ ~b.err /\ b.kind = "basicblock" => LET n == LastOf(LAMBDA c : c.m \in {Burn, "MaxBurnedMana"}) IN
        b.o.s["MaxBurnedMana"][1] >= 100 <=> n # 0 /\ calls[n].m = Burn
  /\ ~b.err => \A x \in IF \E j \in DOMAIN calls : calls[j].m = Burn THEN Setters(b.kind) \ {"MaxBurnedMana"} ELSE Setters(b.kind) : LET n == LastOf(LAMBDA c : c.m = x /\ c.p = "") IN b.o.s[x] = (IF n = 0 THEN Begin.s[x] ELSE calls[n].a)
  /\ \A m \in Conds(b.kind) : LET n == LastOf(LAMBDA c : c.m = m) t == CondOf[m] IN
        IF n = 0 THEN (t \in DOMAIN b.o.c) = (t \in DOMAIN Begin.c) /\ (t \in DOMAIN b.o.c => b.o.c[t] = Begin.c[t]) ELSE t \in DOMAIN b.o.c /\ b.o.c[t] = calls[n].a
  /\ \A m \in Feats(b.kind) \ {"BlockIssuer", "Staking"} : LET n == LastOf(LAMBDA c : c.m = m \/ (c.m = "RemoveFeature" /\ c.a = <<FeatOf[m]>>)) t == FeatOf[m] IN
        IF n = 0 THEN (t \in DOMAIN b.o.f) = (t \in DOMAIN Begin.f) /\ (t \in DOMAIN b.o.f => b.o.f[t] = Begin.f[t])
        ELSE IF calls[n].m = m THEN t \in DOMAIN b.o.f /\ b.o.f[t] = calls[n].a ELSE t \notin DOMAIN b.o.f
\* what is built from a previous anchor changes its state or its governance, not both
OneKind == b.kind = "anchor" /\ b.prev # <<>> /\ ~Fails(b) =>
  LET o == Built(b) p == b.prev[1] IN
  /\ o.i = p.i
  /\ o.s["StateIndex"] = p.s["StateIndex"] => o.s["Amount"] = p.s["Amount"] /\ (3 \in DOMAIN o.f) = (3 \in DOMAIN p.f) /\ (3 \in DOMAIN p.f => o.f[3] = p.f[3])
  /\ o.s["StateIndex"] # p.s["StateIndex"] => o.c = p.c /\ (2 \in DOMAIN o.f) = (2 \in DOMAIN p.f) /\ (2 \in DOMAIN p.f => o.f[2] = p.f[2])
ImmKept == b.kind \in Outputs /\ b.prev # <<>> /\ ~Fails(b) => Built(b).i = b.prev[1].i
Again == Call(b, P("Build", <<>>)) = b
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetSeq(S \ {x})
Pairs(F) == LET q == SetSeq(DOMAIN F) IN [j \in DOMAIN q |-> [t |-> q[j], v |-> F[q[j]]]]
J(o) == [s |-> o.s, c |-> Pairs(o.c), f |-> Pairs(o.f), i |-> Pairs(o.i)]
Emit == Len(calls) = MaxCalls => PrintT("CASE " \o ToJson([kind |-> b.kind, prev |-> IF b.prev = <<>> THEN 0 ELSE 1, start |-> J(Begin), calls |-> calls]))
=============================================================================
