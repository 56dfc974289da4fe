---------------------------- MODULE ProviderLin -----------------------------
(* Histories recorded from concurrent use of the real provider: every history  *)
(* has to be explained by some order of its operations that respects real time *)
(* and gives every operation the recorded answer.  An operation is             *)
(* [a: action or query, inv, ret: logical times, ok, r: answer].                *)
EXTENDS Provider, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VERIF_IN)
VARIABLES k, done, s

Ops == Recs[k].h
Init == k \in DOMAIN Recs /\ done = {} /\ s = Empty
Ready(j) == j \notin done /\ \A m \in DOMAIN Ops : m \notin done /\ m # j => ~(Ops[m].ret < Ops[j].inv)
Answer(st, q) == CASE q.op = "latest" -> {st.latest}
                   [] q.op = "committed" -> {st.committed, st.committedMax}
                   [] q.op = "forslot" -> {ForSlot(st, q.x)}
                   [] q.op = "start" -> {StartOf(st, q.v)}
                   [] q.op = "known" -> {Cardinality(Vers(st))}
Queries == {"latest", "committed", "forslot", "start", "known"}
Do(j) == LET o == Ops[j] IN
  /\ Ready(j)
  /\ IF o.op \in Queries THEN o.r \in Answer(s, o) /\ s' = s
     ELSE LET r == Step(s, o) IN r.ok = (o.ok = 1) /\ s' = r.s
  /\ done' = done \cup {j} /\ k' = k
Next == \E j \in DOMAIN Ops : Do(j)
Spec == Init /\ [][Next]_<<k, done, s>>
Explained == done = DOMAIN Ops => PrintT("LIN " \o ToJson([i |-> k]))
=============================================================================
