-------------------------------- MODULE Time --------------------------------
(* Slots, epochs and wall-clock time, over the full range of the types: slots *)
(* and epochs are 32 bit, times nanoseconds since 1970, all as big numbers.   *)
(* A parameter set is [gs: genesis slot, gt: genesis time in seconds,          *)
(* dur: seconds per slot, exp: log2 of slots per epoch].                       *)
EXTENDS BigNat, FiniteSets

NsPerSec(n) == MulSmall(MulSmall(MulSmall(n, 1000), 1000), 1000)
GenesisNs(tp) == NsPerSec(tp.gt)
SlotNs(tp) == NsPerSec(FromInt(tp.dur))
MaxSlotN == Sub(Pow2(32), One)

RECURSIVE DivBig(_, _, _)
\* floor(a / b) by binary search downwards over powers of two: 2^k * b <= a
DivBig(a, b, k) ==
  IF k < 0 THEN Zero
  ELSE LET s == ShiftL(b, k) IN IF Leq(s, a) THEN Add(Pow2(k), DivBig(Sub(a, s), b, k - 1)) ELSE DivBig(a, b, k - 1)

\* the slot a time t belongs to
SlotOfTime(tp, t) ==
  IF Lt(t, GenesisNs(tp)) THEN tp.gs
  ELSE Add(Add(tp.gs, One), DivSmall(DivSmall(DivSmall(DivSmall(Sub(t, GenesisNs(tp)), 1000), 1000), 1000), tp.dur))

\* first and last nanosecond of a slot; all slots up to the genesis slot stand for the time before genesis
SlotStart(tp, s) == IF Leq(s, tp.gs) THEN Sub(GenesisNs(tp), One)
                    ELSE Add(GenesisNs(tp), NsPerSec(MulSmall(Sub(Sub(s, tp.gs), One), tp.dur)))
SlotEnd(tp, s)   == IF Leq(s, tp.gs) THEN Sub(GenesisNs(tp), One)
                    ELSE Sub(Add(GenesisNs(tp), NsPerSec(MulSmall(Sub(s, tp.gs), tp.dur))), One)

EpochOfSlot(tp, s) == ShiftR(Monus(s, tp.gs), tp.exp)
FirstSlot(tp, e)   == Add(tp.gs, ShiftL(e, tp.exp))
LastSlot(tp, e)    == Sub(FirstSlot(tp, Add(e, One)), One)
\* the epochs whose slots all exist
EpochExists(tp, e) == Leq(LastSlot(tp, e), MaxSlotN)

BeforeNext(tp, s) == IF Lt(s, tp.gs) THEN Zero ELSE Sub(FirstSlot(tp, Add(EpochOfSlot(tp, s), One)), s)
SinceStart(tp, s) == IF Lt(s, tp.gs) THEN Zero ELSE Sub(s, FirstSlot(tp, EpochOfSlot(tp, s)))

\* ---------------------------------------------------------------- laws -----
\* what the property promises, stated about the operators above; checked on
\* every state TLC visits (MC_Time exhaustively in small scope, TimeConform on
\* every recorded query)
TimeLaws(tp, t) ==
  LET s == SlotOfTime(tp, t) IN
  /\ Lt(t, GenesisNs(tp)) <=> s = tp.gs
  /\ s # tp.gs => Leq(SlotStart(tp, s), t) /\ Leq(t, SlotEnd(tp, s))
  /\ Leq(s, SlotOfTime(tp, Add(t, One)))
SlotLaws(tp, s) ==
  /\ Lt(tp.gs, s) => /\ SlotOfTime(tp, SlotStart(tp, s)) = s
                     /\ SlotOfTime(tp, SlotEnd(tp, s)) = s
                     /\ Add(SlotEnd(tp, s), One) = SlotStart(tp, Add(s, One))
                     /\ Sub(Add(SlotEnd(tp, s), One), SlotStart(tp, s)) = SlotNs(tp)
  /\ Leq(tp.gs, s) => LET e == EpochOfSlot(tp, s) IN
                      /\ Leq(FirstSlot(tp, e), s) /\ Leq(s, LastSlot(tp, e))
                      /\ Add(FirstSlot(tp, e), SinceStart(tp, s)) = s
                      /\ Add(s, BeforeNext(tp, s)) = FirstSlot(tp, Add(e, One))
  /\ Leq(EpochOfSlot(tp, s), EpochOfSlot(tp, Add(s, One)))
EpochLaws(tp, e) ==
  /\ EpochOfSlot(tp, FirstSlot(tp, e)) = e
  /\ EpochOfSlot(tp, LastSlot(tp, e)) = e
  /\ Add(LastSlot(tp, e), One) = FirstSlot(tp, Add(e, One))
  /\ Add(Sub(LastSlot(tp, e), FirstSlot(tp, e)), One) = Pow2(tp.exp)
=============================================================================
