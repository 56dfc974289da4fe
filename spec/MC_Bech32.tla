----------------------------- MODULE MC_Bech32 ------------------------------
(* The code: an error adds its syndrome to the checksum, whatever word it hits.  *)
(* And the grammar: payloads of every length are digits and back, digits that   *)
(* are no payload are refused.                                                  *)
EXTENDS Bech32, TLC
CONSTANTS Places,      \* length of the data part, checksum included
          MaxBytes

Values == 1..31
VARIABLES j, on         \* place, counted from the end
Init == j \in 0..(Places - 1) /\ on = 0
Next == on = 0 /\ on' = 1 /\ UNCHANGED j
Spec == Init /\ [][Next]_<<j, on>>
Rows == FoldLeft(LAMBDA rows, k : Append(rows, NextRow(rows[Len(rows)])), <<FirstRow>>, SubSeq([k \in 1..(Places - 1) |-> k], 1, Places - 1))
row == Rows[j + 1]      \* row[v]: syndrome of v at this place

\* a row is a group under ^^: errors in one place behave like one error
RowClosed == on = 1 =>
             /\ 0 \notin ToSet(row)
             /\ \A v, w \in Values : v # w => \E x \in Values : row[v] ^^ row[w] = row[x] /\ x = v ^^ w
\* errors are independent of the word they hit
Words == {<<>>, <<0>>, <<31, 1>>, <<7, 7, 7, 20>>}
Affine == on = 1 => \A h \in {<<105, 111, 116, 97>>, <<33>>}, w \in Words, v \in {1, 2, 17, 31} :
            LET word == w \o [k \in 1..(j + 1) |-> (k * 5) % 32]  p == Len(word) - j
                hit == [word EXCEPT ![p] = @ ^^ v]
            IN Poly(Poly(1, Expand(h)), hit) = Poly(Poly(1, Expand(h)), word) ^^ row[v]

\* payloads of every length up to MaxBytes
Payloads(n) == {[k \in 1..n |-> 0], [k \in 1..n |-> 255], [k \in 1..n |-> (37 * k + n) % 256]} \cup (IF n = 1 THEN {<<x>> : x \in 0..255} ELSE {})
Hrp == <<114, 109, 115>>
RoundTrip ==
  on = 1 /\ j <= MaxBytes =>
    \A p \in Payloads(j) :
      LET ds == ToDigits(p) IN
      /\ Canonical(ds) /\ FromDigits(ds) = p
      /\ Len(ds) > 0 => \A x \in Values : (Canonical([ds EXCEPT ![Len(ds)] = @ ^^ x]) => FromDigits([ds EXCEPT ![Len(ds)] = @ ^^ x]) # p)
      /\ ~Canonical(Append(ds, 1)) \/ FromDigits(Append(ds, 1)) # p
      /\ Encodable(Hrp, p) => LET t == Encode(Hrp, p) IN Wrong(t) = "" /\ Prefix(t) = Hrp /\ Payload(t) = p /\ Wrong(UpT(t)) = "" /\ Payload(UpT(t)) = p
=============================================================================
