------------------------------ MODULE MC_Keys -------------------------------
(* Signers are built by registering keys for addresses; key sets by adding and *)
(* removing keys.  Checks the laws of the specification in every state and     *)
(* emits the states for replay on the real code.                               *)
EXTENDS Keys, TLC, Json
CONSTANTS Owners, MaxRegs, MaxOps, IKeys

Addrs == [kind : {"ed", "imp", "res"}, k : 1..Owners, cap : {1}] \cup [kind : {"res"}, k : 1..Owners, cap : {2}]
Queries == Addrs \cup [kind : {"acc", "multi", "resacc"}, k : {1}, cap : {1}]
VARIABLES mode, regs, ops, set
vars == <<mode, regs, ops, set>>
Init == mode \in {"signer", "keys"} /\ regs = <<>> /\ ops = <<>> /\ set = {}
Register(a, k) == mode = "signer" /\ Len(regs) < MaxRegs /\ regs' = Append(regs, [a |-> a, key |-> k]) /\ UNCHANGED <<mode, ops, set>>
Op(o, k) == mode = "keys" /\ Len(ops) < MaxOps /\ ops' = Append(ops, [o |-> o, k |-> k]) /\ set' = After(set, [o |-> o, k |-> k]) /\ UNCHANGED <<mode, regs>>
Next == \/ \E a \in Addrs, k \in 0..Owners : Register(a, k)
        \/ \E o \in {"add", "rem"}, k \in 1..IKeys : Op(o, k)
Spec == Init /\ [][Next]_vars

\* forms of one address answer alike; what was registered is answered; nothing else is
FormsAgree == \A a, b \in Addrs : Plain(a) = Plain(b) => Answer(regs, a) = Answer(regs, b)
Known == \A a \in Addrs : (Answer(regs, a) = Missing) = (\A j \in DOMAIN regs : Plain(regs[j].a) # Plain(a))
LastWins == regs # <<>> => Answer(regs, regs[Len(regs)].a) = (IF regs[Len(regs)].key = 0 THEN WrongType ELSE regs[Len(regs)].key)
OthersRefused == \A q \in Queries \ Addrs : Answer(regs, q) = Unsupported
SetLaw == set = KeysAfter({}, ops) /\ LET s == Sorted(set) IN Len(s) = Cardinality(set) /\ \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Emit == IF mode = "signer" THEN PrintT("CASE " \o ToJson([op |-> "signer", bulk |-> 0, regs |-> regs, qs |-> SeqOf(Queries)]))
        ELSE PrintT("CASE " \o ToJson([op |-> "ikeys", h |-> ops]))
=============================================================================
