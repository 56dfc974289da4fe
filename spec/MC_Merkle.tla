----------------------------- MODULE MC_Merkle ------------------------------
(* Lists grow element by element; for every list and position the proof is     *)
(* complete, and no tampered proof verifies for a value outside the list.      *)
(* Letters = 0: all elements differ (long lists).                               *)
EXTENDS Merkle, TLC, Json
CONSTANTS Letters, MaxLen, Tamper

VARIABLE s
Init == s = <<>>
Next == /\ Len(s) < MaxLen
        /\ IF Letters = 0 THEN s' = Append(s, Len(s) + 1) ELSE \E x \in 1..Letters : s' = Append(s, x)
Spec == Init /\ [][Next]_s

Alien == 999                    \* a value in no list
Positions == IF Letters = 0 /\ Len(s) > 20 THEN {1, 2, Split(Len(s), 1), Split(Len(s), 1) + 1, (2 * Len(s)) \div 3, Len(s) - 1, Len(s)} ELSE DOMAIN s
Values == {s[j] : j \in Positions} \cup {Alien}
Terms == {Leaf(Alien), Root(s), Node(Leaf(Alien), Leaf(Alien)), EmptyTree} \cup {Leaf(s[j]) : j \in DOMAIN s}
Mutants(i) == IF Tamper THEN Tampered(Proof(s, i), Terms) \ {Proof(s, i)} ELSE {}

Complete == \A i \in Positions : Verify(Proof(s, i), s[i], Root(s)) /\ \A x \in Values : Contains(Proof(s, i), x) => x = s[i]
Sound == \A i \in Positions : \A q \in Mutants(i), x \in Values : Verify(q, x, Root(s)) => x \in {s[j] : j \in DOMAIN s}
\* another list, or the same list in another order, has another root
Binding == Letters = 0 \/ \A k \in 1..Letters, j \in DOMAIN s : LET t == [s EXCEPT ![j] = k] IN t # s => Root(t) # Root(s)

\* the eight roots a commitment stands for, and the proofs offered for some of them
RootFields == <<"TangleRoot", "StateMutationRoot", "StateRoot", "AccountRoot", "AttestationsRoot", "CommitteeRoot", "RewardsRoot", "ProtocolParametersHash">>
Offered == [TangleProof |-> 1, MutationProof |-> 2, AttestationsProof |-> 5]
Eight == [j \in 1..8 |-> j]
EmitRoots ==
  (s = <<>> /\ Tamper) =>
     \A f \in DOMAIN Offered : LET q == Proof(Eight, Offered[f]) IN
       PrintT("CASE " \o ToJson([fields |-> RootFields, offered |-> f, s |-> Eight, i |-> Offered[f], root |-> Root(Eight), proof |-> q, values |-> {1, 2, 5, 7, Alien},
          muts |-> {[p |-> m, h |-> RootOf(m), v |-> {x \in {1, 2, 5, 7, Alien} : Contains(m, x)}] : m \in Tampered(q, {Leaf(Alien), Leaf(1), Leaf(5), EmptyTree}) \ {q}}]))

Emit ==
  /\ EmitRoots
  /\ PrintT("CASE " \o ToJson([s |-> s, i |-> 0, root |-> Root(s), proof |-> <<>>, values |-> <<>>, muts |-> <<>>]))
  /\ \A i \in Positions :
       PrintT("CASE " \o ToJson([s |-> s, i |-> i, root |-> Root(s), proof |-> Proof(s, i), values |-> Values,
                                 muts |-> {[p |-> q, h |-> RootOf(q), v |-> {x \in Values : Contains(q, x)}] : q \in Mutants(i)}]))
=============================================================================
