---------------------------- MODULE WorkConform ------------------------------
(* Judges recorded work scores and mana costs of blocks under arbitrary costs.  *)
EXTENDS Syntax
Recs == ndJsonDeserialize(IOEnv.VERIF_IN)
NRecs == Len(Recs)
Lanes == 8

MaxU32 == Sub(Pow2(32), One)
None == [x \in Range(PartNames) |-> 0]
MaxPayload == 32768 - 89 - 16 - 36 - 97
\* a block's parts: its payload as a whole has a size, blocks of validators cost nothing
Parts(r) == CASE r.pk = "tx" -> TxParts(r.r)
              [] r.pk = "tagged" -> [None EXCEPT !.data = 1 + 1 + r.ptag + 4 + r.pdata, !.block = 1]
              [] r.pk = "cand" -> [None EXCEPT !.data = 1, !.block = 1]
              [] r.pk = "none" -> [None EXCEPT !.block = 1]
              [] r.pk = "validation" -> None
\* an upper bound for all blocks
MaxParts == [data |-> MaxPayload, block |-> 1, input |-> 128, ctx |-> 128, output |-> 128, nt |-> 256, stake |-> 128, bi |-> 128, allot |-> 128, sig |-> 1280]
InBounds(parts) == \A x \in Range(PartNames) : parts[x] <= MaxParts[x]
Val(v, max) == [ok |-> IF Leq(v, max) THEN 1 ELSE 0, v |-> IF Leq(v, max) THEN v ELSE Zero]
Cost(r, work) == IF work.ok = 0 THEN work ELSE Val(Mul(r.rmc, work.v), MaxU64)

Valid(r) == r.pk = "tx" => SynFailed(r.r) = {} /\ SignedSize(r.r) <= MaxPayload
Disagree(r) ==
  LET work == Val(WorkOf(r.w, Parts(r)), MaxU32)  cost == Cost(r, work)  max == Val(WorkOf(r.w, MaxParts), MaxU32) IN
  UNION {
    If(r.res.panic = 1, "panic"),
    If(r.res.work # work, "work score"),
    If(r.res.cost # cost, "mana cost"),
    If(r.res.max # max, "maximum work score"),
    If(r.res.api # max, "maximum work score of the API"),
    IF max.ok = 0 THEN {} ELSE UNION {
      If(r.res.bwork # work, "work score of block"),
      If(r.res.bcost # cost, "mana cost of block") } }
Laws(r) == IF ~InBounds(Parts(r)) /\ Valid(r) THEN {"a valid block exceeds the maximum counts"} ELSE {}
Class(r) ==
  LET parts == Parts(r)  work == Val(WorkOf(r.w, parts), MaxU32) IN
  {r.pk, "work " \o (IF work.ok = 1 THEN "fits" ELSE "overflows"), "maximum work " \o (IF r.res.max.ok = 1 THEN "fits" ELSE "overflows")}
  \cup If(work.ok = 1, "cost " \o (IF r.res.cost.ok = 1 THEN "fits" ELSE "overflows"))
  \cup {x \in Range(PartNames) : parts[x] > 1}
  \cup If(work.v = MaxU32, "work exactly maximal") \cup If(parts.nt > 128 /\ Valid(r), "valid with more token parts than outputs")
Judge(k) == LET r == Recs[k] IN PrintT("REC " \o ToJson([i |-> k, d |-> IF r.res.unbuilt = 1 THEN {} ELSE Disagree(r), l |-> Laws(r), c |-> IF r.res.unbuilt = 1 THEN {"unbuilt"} ELSE Class(r)]))
VARIABLE i
Init == i \in 1..Min2(Lanes, NRecs)
Next == i + Lanes <= NRecs /\ i' = i + Lanes
Spec == Init /\ [][Next]_i
Judged == Judge(i)
==============================================================================
