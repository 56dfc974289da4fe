------------------------------ MODULE MC_Time -------------------------------
(* The laws of time in small scope, exhaustively: every genesis, slot          *)
(* duration and epoch length below the bounds, every instant around every slot *)
(* boundary of the first epochs.  Each state is a query that is also asked of  *)
(* the real code (CASE lines).                                                 *)
EXTENDS Time, TLC, Json

CONSTANTS MaxGenesis, MaxDur, MaxExp, MaxSteps
VARIABLES tp, op, x, n

\* a clock that ticks from boundary to boundary: n counts half-open slot ends
Instants(q, s) == {SlotStart(q, s), SlotEnd(q, s), Add(SlotStart(q, s), One)}

Init == /\ tp \in [gs : {FromInt(g) : g \in 0..MaxGenesis}, gt : {FromInt(g) : g \in {1, 17}}, dur : 1..MaxDur, exp : 0..MaxExp]
        /\ n = 0 /\ op = "params" /\ x = Zero
Tick  == n < MaxSteps /\ n' = n + 1 /\ tp' = tp
Next == /\ Tick
        /\ \/ op' = "time"  /\ x' \in Instants(tp, FromInt(n))
           \/ op' = "slot"  /\ x' = FromInt(n)
           \/ op' = "epoch" /\ x' = FromInt(n)
Spec == Init /\ [][Next]_<<tp, op, x, n>>

Laws == CASE op = "time" -> TimeLaws(tp, x) [] op = "slot" -> SlotLaws(tp, x) [] op = "epoch" -> EpochLaws(tp, x) [] OTHER -> TRUE
Emit == PrintT("CASE " \o ToJson([op |-> op, tp |-> tp, x |-> x]))
=============================================================================
