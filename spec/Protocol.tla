------------------------------ MODULE Protocol ------------------------------
(* Protocol parameters and everything that is a function of them and of time: *)
(* epochs, committed windows, mana generation and decay.                       *)
EXTENDS BigNat, TLC, Json, IOUtils, FiniteSets

\* one record per parameter set, written by the harness from the parameters
\* the real code runs with
Params == ndJsonDeserialize(IOEnv.VERIF_PARAMS)
PP(p) == Params[p + 1]

MaxTick == 2147483647       \* stands for the highest slot and epoch

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ------------------------------------------------------------------ time ---
Pow2I(n) == 2 ^ n
EpochOf(pp, s)    == IF s <= pp.genesis THEN 0 ELSE (s - pp.genesis) \div Pow2I(pp.exp)
EpochStart(pp, e) == pp.genesis + e * Pow2I(pp.exp)
EpochEnd(pp, e)   == EpochStart(pp, e + 1) - 1

\* the window of slots a commitment to slot c stands for: the earliest and the
\* latest slot a block that carries the transaction can be in
PastBounded(pp, c)   == c + pp.maxca
FutureBounded(pp, c) == c + pp.minca

RegistrationSlot(pp, e) == EpochEnd(pp, e) - pp.nearing
\* first epoch a new delegation can start in, last epoch a delegation is active
DelegStart(pp, c) == LET s == PastBounded(pp, c)   e == EpochOf(pp, s) IN IF s <= RegistrationSlot(pp, e) THEN e + 1 ELSE e + 2
DelegEnd(pp, c)   == LET s == FutureBounded(pp, c) e == EpochOf(pp, s) IN IF s <= RegistrationSlot(pp, e) THEN e ELSE e + 1

\* ------------------------------------------------------------------ mana ---
ScaleBy(v, f, e) == ShiftR(Mul(v, f), e)

RECURSIVE Decay(_, _, _)
Decay(pp, v, n) ==
  IF v = Zero \/ n = 0 \/ Len(pp.decay) = 0 THEN v
  ELSE LET d == Min2(n, Len(pp.decay)) IN Decay(pp, ScaleBy(v, pp.decay[d], pp.decayexp), n - d)

Generate(pp, amount, slots) ==
  IF slots = 0 THEN Zero ELSE ShiftR(Mul(amount, Mul(FromInt(slots), FromInt(pp.genrate))), pp.genexp)

\* mana generated by an amount from one slot to another, decayed to the latter
GenerateAndDecay(pp, amount, from, to) ==
  LET e1 == EpochOf(pp, from)
      e2 == EpochOf(pp, to)
      n  == e2 - e1
      first == Generate(pp, amount, EpochStart(pp, e1 + 1) - from)
      last  == Generate(pp, amount, to - EpochStart(pp, e2))
      c  == ScaleBy(amount, Mul(pp.sum, FromInt(pp.genrate)), pp.sumexp + pp.genexp - pp.exp)
  IN IF n = 0 THEN Generate(pp, amount, to - from)
     ELSE IF n = 1 THEN Add(Decay(pp, first, 1), last)
     ELSE Sub(Add(Sub(c, Decay(pp, c, n - 1)), Add(last, Decay(pp, first, n))), ShiftR(c, pp.decayexp))

MaxMana(pp) == Sub(Pow2(pp.bits), One)
=============================================================================
