-------------------------------- MODULE Lanes -------------------------------
(* Walks over the records of a file, one state per record, in independent     *)
(* lanes so that several workers share the work.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VERIF_IN)
NRecs == Len(Recs)
Lanes == 8

VARIABLE i
Init == i \in 1..(IF Lanes < NRecs THEN Lanes ELSE NRecs)
Next == i + Lanes <= NRecs /\ i' = i + Lanes
Spec == Init /\ [][Next]_i

\* verdict on record k: disagreements d, class c (for coverage), broken laws of the specification itself
Say(k, d, c, laws) == PrintT("REC " \o ToJson([i |-> k, d |-> d, c |-> c, l |-> laws]))
If(c, x) == IF c THEN {x} ELSE {}
=============================================================================
