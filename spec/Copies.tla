------------------------------- MODULE Copies -------------------------------
(* Values and their copies, comparison, order, lists by type and identifiers.  *)
(* An object is a value held in a place of its own: a copy is equal to the      *)
(* original and shares nothing with it.  Lists of features, unlock conditions   *)
(* and keys are sequences of <<type, value>>.  Identifiers and sort keys are    *)
(* sequences of numbers, ordered lexicographically.                             *)
EXTENDS BigNat, FiniteSets, SequencesExt, TLC

\* ----------------------------------------------------------- order of keys ---
RECURSIVE Before(_, _)
Before(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                ELSE x[1] < y[1] \/ (x[1] = y[1] /\ Before(Tail(x), Tail(y)))
Sign(x, y) == IF x = y THEN 1 ELSE IF Before(x, y) THEN 0 ELSE 2
RECURSIVE Into(_, _)
Into(l, x) == IF l = <<>> THEN <<x>> ELSE IF Before(x, l[1]) THEN <<x>> \o l ELSE <<l[1]>> \o Into(Tail(l), x)
RECURSIVE Sorted(_)
Sorted(l) == IF l = <<>> THEN <<>> ELSE Into(Sorted(Tail(l)), l[1])
RECURSIVE NoTwins(_)
NoTwins(l) == IF Len(l) < 2 THEN l ELSE IF l[1] = l[2] THEN NoTwins(Tail(l)) ELSE <<l[1]>> \o NoTwins(Tail(l))

\* --------------------------------------------------- lists with a type each ---
At(l, t) == {j \in DOMAIN l : l[j][1] = t}
LeastOf(s) == CHOOSE x \in s : \A y \in s : x <= y
Drop(l, j) == SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l))
Put(l, t, v) == IF At(l, t) = {} THEN Append(l, <<t, v>>) ELSE [l EXCEPT ![LeastOf(At(l, t))] = <<t, v>>]
Without(l, t) == IF At(l, t) = {} THEN l ELSE Drop(l, LeastOf(At(l, t)))
Typed(l) == \A j, k \in DOMAIN l : l[j][1] = l[k][1] => j = k
\* entries of one type keep no particular order
ByType(l, s) == /\ Len(l) = Len(s)
                /\ \A j \in 1..(Len(s) - 1) : s[j][1] <= s[j + 1][1]
                /\ \A x \in {l[j] : j \in DOMAIN l} \cup {s[j] : j \in DOMAIN s} : Cardinality({j \in DOMAIN l : l[j] = x}) = Cardinality({j \in DOMAIN s : s[j] = x})
\* ------------------------------------------------------------- sets of keys ---
HasKey(l, x) == \E j \in DOMAIN l : l[j] = x
AddKey(l, x) == IF HasKey(l, x) THEN l ELSE Sorted(Append(l, x))
RemoveKey(l, x) == IF HasKey(l, x) THEN Drop(l, LeastOf({j \in DOMAIN l : l[j] = x})) ELSE l

\* step s on list l: is l2 with result res right
ListStep(kind, l, s, res, l2) ==
  IF kind = "keys" THEN
    CASE s.o = "put" -> l2 = AddKey(l, <<s.t, s.v>>)
      [] s.o = "remove" -> l2 = RemoveKey(l, <<s.t, s.v>>)
      [] s.o = "sort" -> l2 = Sorted(l)
      [] s.o = "set" -> l2 = l /\ (res = 1 <=> HasKey(l, <<s.t, s.v>>))
  ELSE
    CASE s.o = "put" -> l2 = Put(l, s.t, s.v)
      [] s.o = "remove" -> l2 = Without(l, s.t) /\ (res = 1 <=> At(l, s.t) # {})
      [] s.o = "sort" -> ByType(l, l2)
      [] s.o = "set" -> l2 = l /\ (res = 1 <=> Typed(l))

\* -------------------------------------------------------------- identifiers ---
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Text(_)
Text(b) == IF b = <<>> THEN <<>> ELSE <<Digit(b[1] \div 16), Digit(b[1] % 16)>> \o Text(Tail(b))
IdText(b) == <<48, 120>> \o Text(b)
RECURSIVE Little(_)
Little(b) == IF b = <<>> THEN Zero ELSE Add(FromInt(b[1]), MulSmall(Little(Tail(b)), 256))
IdSlot(b) == Little(SubSeq(b, 33, 36))
IdIndex(b) == b[37] + 256 * b[38]
Slotted == {"BlockID", "TransactionID", "CommitmentID", "SignedTransactionID", "OutputID"}

\* --------------------------------------------------------- reading from bytes ---
Width(kind) == IF kind = "Version" THEN 1 ELSE 4
\* Ed25519, account, NFT, anchor, implicit account; restricted ones hold one of the first four and up to two bytes of capabilities
Plain == {0, 8, 16, 24, 32}
OwnType == [Account |-> 8, NFT |-> 16, Anchor |-> 24, Implicit |-> 32]
\* the length of the address at the start of b, 0 if there is none
AddrLen(b) == IF b = <<>> THEN 0
              ELSE IF b[1] \in Plain THEN (IF Len(b) >= 33 THEN 33 ELSE 0)
              ELSE IF b[1] = 48 /\ Len(b) >= 35 /\ b[2] \in Plain \ {32} /\ b[35] <= 2 /\ Len(b) >= 35 + b[35] THEN 35 + b[35]
              ELSE 0
Readable(kind, b) == IF kind = "Address" THEN AddrLen(b) ELSE IF AddrLen(b) = 33 /\ b[1] = OwnType[kind] THEN 33 ELSE 0
=============================================================================
