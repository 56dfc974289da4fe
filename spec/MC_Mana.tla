------------------------------ MODULE MC_Mana -------------------------------
(* The mana arithmetic in small scope, exhaustively: laws of decay and          *)
(* generation for small tables, every value and every pair of slots below the  *)
(* bounds.                                                                      *)
EXTENDS Protocol
CONSTANTS MaxValue, MaxSlot

\* small parameter sets: factors over 2^4, epochs of 1, 2 and 4 slots
Sets == [genesis : {0, 3}, exp : {0, 1, 2}, decay : {<<FromInt(15)>>, <<FromInt(14), FromInt(12)>>, <<FromInt(11), FromInt(7), FromInt(5)>>, <<FromInt(15), FromInt(15), FromInt(15)>>, <<>>},
         decayexp : {4}, genrate : {1, 3}, genexp : {0, 2, 5}, sum : {FromInt(20)}, sumexp : {4}]

VARIABLES pp, v, from, to
Init == pp \in Sets /\ v = 0 /\ from = 0 /\ to = 0
\* time passes, or the amount grows, or the output is created later
Next == /\ pp' = pp
        /\ \/ v < MaxValue /\ v' = v + 1 /\ UNCHANGED <<from, to>>
           \/ to < MaxSlot /\ to' = to + 1 /\ UNCHANGED <<from, v>>
           \/ from < to /\ from' = from + 1 /\ UNCHANGED <<to, v>>
Spec == Init /\ [][Next]_<<pp, v, from, to>>

N == EpochOf(pp, to) - EpochOf(pp, from)
D(x, n) == Decay(pp, FromInt(x), n)
NeverMore      == Leq(D(v, N), FromInt(v))
Identity       == D(v, 0) = FromInt(v)
WaitingIsWorse == Leq(D(v, N + 1), D(v, N))
MonotoneDecay  == Leq(D(v, N), D(v + 1, N))
\* splitting an amount never leaves more
SplitDecay     == \A w \in 0..v : Leq(Add(D(w, N), D(v - w, N)), D(v, N))
MonotoneGen    == LET s == to - from IN /\ Leq(Generate(pp, FromInt(v), s), Generate(pp, FromInt(v + 1), s))
                                        /\ Leq(Generate(pp, FromInt(v), s), Generate(pp, FromInt(v), s + 1))
NoGenInSlot    == from = to => GenerateAndDecay(pp, FromInt(v), from, to) = Zero
\* moving an output within an epoch never creates mana
SplitGen       == LET s == to - from IN \A k \in 0..s : Leq(Add(Generate(pp, FromInt(v), k), Generate(pp, FromInt(v), s - k)), Generate(pp, FromInt(v), s))
=============================================================================
