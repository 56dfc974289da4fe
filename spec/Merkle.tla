------------------------------- MODULE Merkle -------------------------------
(* Hash trees over ideal hashes: a hash is the term it was computed from, so   *)
(* two hashes are equal exactly if their terms are.                            *)
EXTENDS Integers, Sequences, FiniteSets

Leaf(x)    == <<"l", x>>
Node(a, b) == <<"n", a, b>>
EmptyTree  == <<"e">>

\* the largest power of two smaller than n
RECURSIVE Split(_, _)
Split(n, k) == IF 2 * k < n THEN Split(n, 2 * k) ELSE k

RECURSIVE Root(_)
Root(s) ==
  IF s = <<>> THEN EmptyTree
  ELSE IF Len(s) = 1 THEN Leaf(s[1])
  ELSE LET k == Split(Len(s), 1) IN Node(Root(SubSeq(s, 1, k)), Root(SubSeq(s, k + 1, Len(s))))

\* proofs: V holds the hash of the proven value, L the hash of a subtree, N joins two proofs
V(h) == <<"V", h>>
L(h) == <<"L", h>>
N(p, q) == <<"N", p, q>>

RECURSIVE Proof(_, _)
Proof(s, i) ==
  IF Len(s) = 1 THEN V(Leaf(s[1]))
  ELSE LET k == Split(Len(s), 1)  a == SubSeq(s, 1, k)  b == SubSeq(s, k + 1, Len(s)) IN
       IF i <= k THEN N(Proof(a, i), L(Root(b))) ELSE N(L(Root(a)), Proof(b, i - k))

RECURSIVE RootOf(_)
RootOf(p) == IF p[1] = "N" THEN Node(RootOf(p[2]), RootOf(p[3])) ELSE p[2]
RECURSIVE Contains(_, _)
Contains(p, x) == IF p[1] = "N" THEN Contains(p[2], x) \/ Contains(p[3], x) ELSE p[1] = "V" /\ p[2] = Leaf(x)
Verify(p, x, root) == Contains(p, x) /\ RootOf(p) = root

\* what someone without the right list can do to a proof in one step
RECURSIVE Tampered(_, _)
Tampered(p, terms) ==
  IF p[1] = "N"
  THEN {N(p[3], p[2]), p[2], p[3]} \cup {N(q, p[3]) : q \in Tampered(p[2], terms)} \cup {N(p[2], q) : q \in Tampered(p[3], terms)}
  ELSE {<<p[1], t>> : t \in terms} \cup {IF p[1] = "V" THEN L(p[2]) ELSE V(p[2])} \cup {N(p, p)}
=============================================================================
