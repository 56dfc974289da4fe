---------------------------- MODULE MC_Distance -----------------------------
(* The syndromes of all single errors and of all pairs of errors are different  *)
(* and not zero, so two words of the code differ in at least five places: TLC   *)
(* adds errors to the empty one, the number of states tells that no two sets of  *)
(* at most two errors have the same syndrome.                                   *)
EXTENDS Bech32, TLC
CONSTANT Places      \* length of the data part, checksum included

Rows == FoldLeft(LAMBDA rows, k : Append(rows, NextRow(rows[Len(rows)])), <<FirstRow>>, SubSeq([k \in 1..(Places - 1) |-> k], 1, Places - 1))
Singles == UNION {ToSet(Rows[k]) : k \in 1..Places}

VARIABLES n, s          \* errors made, their syndrome
Init == n = 0 /\ s = 0
Next == n < 2 /\ n' = n + 1 /\ \E a \in Singles : s' = s ^^ a
Spec == Init /\ [][Next]_<<n, s>>

NS == Places * 31
\* none; one; two: in one place (0 or a single error), in two places
Expected == 1 + NS + (1 + NS + (NS * (NS - 31)) \div 2)
Detected == n = 1 => s # 0
Distance == TLCGet("distinct") = Expected
=============================================================================
