---------------------------- MODULE ManaConform -----------------------------
(* Judges recorded answers of the real ManaDecayProvider, RewardsParameters   *)
(* and ManaCost over arbitrary parameter sets and the full 64-bit ranges.     *)
EXTENDS Protocol, Time, Lanes

E(tp, s) == EpochOfSlot(tp, s)
Fits(v) == Leq(v, MaxU64)
Val(v) == [ok |-> Fits(v), v |-> v]
Err == [ok |-> FALSE, v |-> Zero]

\* slots as big numbers: the parameter sets carry gs (genesis slot) besides the fields Protocol knows
GenerateN(pp, amount, slots) == ShiftR(Mul(amount, MulSmall(slots, pp.genrate)), pp.genexp)

DecaySlots(pp, m, from, to) ==
  LET a == E(pp, from) b == E(pp, to) IN IF Lt(b, a) THEN Err ELSE Val(Decay(pp, m, ToInt(Sub(b, a))))
DecayEpochs(pp, m, a, b) == IF Lt(b, a) THEN Err ELSE Val(Decay(pp, m, ToInt(Sub(b, a))))

\* the terms of generation over several epochs; all of them have to fit
GenParts(pp, amount, from, to) ==
  LET a == E(pp, from)  b == E(pp, to)  n == ToInt(Sub(b, a))
      first == GenerateN(pp, amount, BeforeNext(pp, from))
      last  == GenerateN(pp, amount, SinceStart(pp, to))
      c     == ScaleBy(amount, MulSmall(pp.sum, pp.genrate), pp.sumexp + pp.genexp - pp.exp)
      mid   == Sub(c, Decay(pp, c, n - 1))
  IN IF n = 0 THEN <<GenerateN(pp, amount, Sub(to, from))>>
     ELSE IF n = 1 THEN <<first, last, Add(Decay(pp, first, 1), last)>>
     ELSE <<first, last, c, Add(mid, last), Add(Add(mid, last), Decay(pp, first, n)),
            Monus(Add(Add(mid, last), Decay(pp, first, n)), ShiftR(c, pp.decayexp))>>
GenSlots(pp, amount, from, to) ==
  IF Lt(to, from) THEN Err
  ELSE LET q == GenParts(pp, amount, from, to) IN
       \* without decay factors the rounding term can exceed the sum
       IF (\A j \in DOMAIN q : Fits(q[j])) /\ (Len(q) < 6 \/ Leq(ShiftR(q[3], pp.decayexp), q[5])) THEN Val(q[Len(q)]) ELSE Err

TargetReward(pp, e) == IF Lt(FromInt(pp.boot), e) THEN Val(pp.rfinal) ELSE Val(Decay(pp, pp.rinit, ToInt(e)))

Slots(pp, r) == \A s \in {r.from, r.to} : EpochExists(pp, E(pp, s)) /\ EpochExists(pp, Add(E(pp, s), One))

Want(pp, r) == CASE r.op = "decayslots"  -> DecaySlots(pp, r.v, r.from, r.to)
                 [] r.op = "decayepochs" -> DecayEpochs(pp, r.v, r.from, r.to)
                 [] r.op = "generate"    -> GenSlots(pp, r.v, r.from, r.to)
                 [] r.op = "reward"      -> TargetReward(pp, r.from)

Class(pp, r) ==
  LET w == Want(pp, r) IN
  r.op \o ":" \o (IF r.op = "reward" THEN (IF Lt(FromInt(pp.boot), r.from) THEN "after bootstrapping" ELSE "bootstrapping")
                  ELSE IF Lt(r.to, r.from) THEN "target before origin"
                  ELSE IF ~w.ok THEN "overflow"
                  ELSE IF r.op = "generate" /\ pp.genexp >= 64 /\ w.v # Zero THEN "upper word"
                  ELSE LET n == IF r.op = "decayepochs" THEN Sub(r.to, r.from) ELSE Sub(E(pp, r.to), E(pp, r.from)) IN
                       IF n = Zero THEN "same epoch" ELSE IF n = One THEN "next epoch"
                       ELSE IF Leq(n, FromInt(Len(pp.decay))) THEN "within table" ELSE "beyond table")

\* promises of the property, on the specification's own functions
ManaLaws(pp, r) ==
  CASE r.op \in {"decayslots", "decayepochs"} ->
         LET w == Want(pp, r) IN w.ok =>
         LET n == IF r.op = "decayepochs" THEN ToInt(Sub(r.to, r.from)) ELSE ToInt(Sub(E(pp, r.to), E(pp, r.from))) IN
         /\ Leq(w.v, r.v) /\ (n = 0 => w.v = r.v)
         /\ Leq(Decay(pp, r.v, n + 1), w.v)
         /\ Leq(w.v, Decay(pp, Add(r.v, One), n))
    [] r.op = "generate" ->
         LET w == Want(pp, r) IN w.ok =>
         /\ r.from = r.to => w.v = Zero
         /\ E(pp, r.from) = E(pp, r.to) => /\ Leq(w.v, GenerateN(pp, Add(r.v, One), Sub(r.to, r.from)))
                                           /\ Leq(w.v, GenerateN(pp, r.v, Add(Sub(r.to, r.from), One)))
    [] OTHER -> TRUE

Judge(k) ==
  LET r == Recs[k]  pp == PP(r.p) IN
  IF r.op \in {"decayslots", "generate"} /\ ~Slots(pp, r) THEN Say(k, {}, "slots of the last, partial epoch", {})
  ELSE LET w == Want(pp, r) IN
       Say(k, IF r.res.panic = 1 THEN {r.op \o ":panic"}
              ELSE IF w.ok # (r.res.ok = 1) THEN {r.op \o (IF w.ok THEN ":refused" ELSE ":not refused")}
              ELSE If(w.ok /\ w.v # r.res.v, r.op),
           Class(pp, r), If(~ManaLaws(pp, r), "ManaLaws"))
Judged == Judge(i)
=============================================================================
