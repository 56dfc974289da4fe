---------------------------- MODULE TimeConform -----------------------------
(* Judges recorded answers of the real TimeProvider.                           *)
EXTENDS Time, Lanes

TPs == ndJsonDeserialize(IOEnv.VERIF_PARAMS)

\* the epoch distances are off by the genesis slot in the code under test: named apart
Dist(got, want, tp, name) ==
  IF got = want THEN {} ELSE IF Add(got, IF Leq(Pow2(32), Add(want, tp.gs)) THEN Pow2(32) ELSE Zero) = Add(want, tp.gs) THEN {name \o ":genesisSlotAdded"} ELSE {name}

Judge(k) ==
  LET r == Recs[k]  tp == TPs[r.p + 1]  s == r.res IN
  CASE r.op = "time" ->
         Say(k, If(s.slot # SlotOfTime(tp, r.x), "SlotFromTime"),
             IF Lt(r.x, GenesisNs(tp)) THEN "time before genesis" ELSE "time after genesis",
             If(~TimeLaws(tp, r.x), "TimeLaws"))
    [] r.op = "slot" ->
         LET e == EpochOfSlot(tp, r.x)  inRange == EpochExists(tp, e) IN
         Say(k, UNION {If(s.start # SlotStart(tp, r.x), "SlotStartTime"), If(s.end # SlotEnd(tp, r.x), "SlotEndTime"),
                       If(s.epoch # e, "EpochFromSlot"),
                       IF ~inRange THEN {} ELSE
                       Dist(s.before, BeforeNext(tp, r.x), tp, "SlotsBeforeNextEpoch") \cup Dist(s.since, SinceStart(tp, r.x), tp, "SlotsSinceEpochStart")},
             IF Lt(r.x, tp.gs) THEN "slot before genesis" ELSE IF r.x = tp.gs THEN "genesis slot" ELSE IF inRange THEN "slot" ELSE "slot of the last, partial epoch",
             If(inRange /\ ~SlotLaws(tp, r.x), "SlotLaws"))
    [] r.op = "epoch" ->
         IF ~EpochExists(tp, r.x) THEN Say(k, {}, "epoch beyond the slot range", {})
         ELSE Say(k, If(s.start # FirstSlot(tp, r.x), "EpochStart") \cup If(s.end # LastSlot(tp, r.x), "EpochEnd"), "epoch", If(~EpochLaws(tp, r.x), "EpochLaws"))
    [] r.op = "now" ->
         Say(k, If(~(Leq(SlotOfTime(tp, r.x), s.slot) /\ Leq(s.slot, SlotOfTime(tp, r.y))), "CurrentSlot")
                \cup If(~(Leq(EpochOfSlot(tp, SlotOfTime(tp, r.x)), s.epoch) /\ Leq(s.epoch, EpochOfSlot(tp, SlotOfTime(tp, r.y)))), "CurrentEpoch"), "now", {})
    [] r.op = "params" ->
         Say(k, UNION {If(s.gs # tp.gs, "GenesisSlot"), If(s.gt # tp.gt, "GenesisUnixTime"), If(s.gtime # GenesisNs(tp), "GenesisTime"),
                       If(s.dur # FromInt(tp.dur), "SlotDurationSeconds"), If(s.exp # FromInt(tp.exp), "SlotsPerEpochExponent"),
                       If(s.eslots # Pow2(tp.exp), "EpochDurationSlots"), If(s.esecs # MulSmall(Pow2(tp.exp), tp.dur), "EpochDurationSeconds")}, "parameters", {})
Judged == Judge(i)
=============================================================================
