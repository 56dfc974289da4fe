-------------------------------- MODULE Keys --------------------------------
(* Keys, addresses and signers.  A key is a number, 0 stands for something     *)
(* that is no key of the right type.  An address [kind, k, cap] is controlled   *)
(* by key k if its kind is signable.                                           *)
EXTENDS Integers, Sequences, FiniteSets

\* ------------------------------------------------------------------ signers ---
Signable == {"ed", "imp", "res"}        \* res: restricted form of the plain address
Plain(a) == IF a.kind = "res" THEN [kind |-> "ed", k |-> a.k] ELSE [kind |-> a.kind, k |-> a.k]
\* a signer is the sequence of its registrations [a, key]; a later one for the same address counts
Missing == -1   Unsupported == -2   WrongType == -3
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Answer(regs, a) ==
  IF a.kind \notin Signable THEN Unsupported
  ELSE LET S == {j \in DOMAIN regs : Plain(regs[j].a) = Plain(a)} IN
       IF S = {} THEN Missing ELSE IF regs[Last(S)].key = 0 THEN WrongType ELSE regs[Last(S)].key
\* addresses a signature by key k unlocks, of those in A
Unlocks(k, A) == {a \in A : a.kind \in {"ed", "imp"} /\ a.k = k}

\* ----------------------------------------------------------- key derivation ---
\* a path is a sequence of elements [n, h]: index below 2^31, hardened
IndexAt == 5
\* an index x (or -1: none) replaces the fifth element by its hardened form
CanIndex(p, x) == x = -1 \/ Len(p) >= IndexAt
WithIndex(p, x) == IF x = -1 THEN p ELSE [p EXCEPT ![IndexAt] = [n |-> x, h |-> 1]]
Derivable(p, x) == CanIndex(p, x)
\* two derivations give the same key
SameKey(s, p, x, s2, p2, x2) == s = s2 /\ WithIndex(p, x) = WithIndex(p2, x2)

\* -------------------------------------------------------- block issuer keys ---
\* operations on an ordered set of keys, numbered by their order
After(S, op) == IF op.o = "add" THEN S \cup {op.k} ELSE S \ {op.k}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
RECURSIVE KeysAfter(_, _)
KeysAfter(S, h) == IF h = <<>> THEN S ELSE KeysAfter(After(S, Head(h)), Tail(h))

\* ------------------------------------------------------ encodings of addresses ---
\* position after the address that starts at position at of the bytes, 0 if there is none
Fixed == {0, 8, 16, 24, 32}     Multi == 40    Restr == 48    Imp == 32
HashLen == 32
Byte(b, at) == IF at \in DOMAIN b THEN b[at] ELSE -1
PlainEnd(b, at) == IF Byte(b, at) \in Fixed /\ at + HashLen <= Len(b) THEN at + 1 + HashLen ELSE 0
Id(b, at) == SubSeq(b, at, at + HashLen)
RECURSIVE LexLess(_, _, _)
LexLess(x, y, j) == j <= Len(x) /\ (x[j] < y[j] \/ (x[j] = y[j] /\ LexLess(x, y, j + 1)))
MultiEnd(b, at) ==
  LET n == Byte(b, at + 1)  rec == HashLen + 2
      pos(j) == at + 2 + (j - 1) * rec
      end == at + 2 + n * rec + 2
      weight(j) == b[pos(j) + rec - 1]
      RECURSIVE Sum(_)
      Sum(j) == IF j = 0 THEN 0 ELSE weight(j) + Sum(j - 1)
      thr == b[end - 2] + 256 * b[end - 1]
  IN IF /\ 2 <= n /\ n <= 10 /\ end - 1 <= Len(b)
        /\ \A j \in 1..n : b[pos(j)] \in Fixed \ {Imp} /\ weight(j) >= 1
        /\ \A j \in 1..(n - 1) : LexLess(Id(b, pos(j)), Id(b, pos(j + 1)), 1)
        /\ 1 <= thr /\ thr <= Sum(n)
     THEN end ELSE 0
AddrEnd(b, at) ==
  LET one(x) == IF Byte(b, x) = Multi THEN MultiEnd(b, x) ELSE PlainEnd(b, x) IN
  IF Byte(b, at) # Restr THEN one(at)
  ELSE LET e == IF Byte(b, at + 1) = Imp THEN 0 ELSE one(at + 1)  n == Byte(b, e) IN
       IF e # 0 /\ 0 <= n /\ n <= 2 /\ e + n <= Len(b) /\ (n > 0 => b[e + n] # 0) THEN e + n + 1 ELSE 0
=============================================================================
