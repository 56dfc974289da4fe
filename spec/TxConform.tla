------------------------------ MODULE TxConform -----------------------------
(* Validates recorded executions of the real code: every record is one         *)
(* transaction in context together with what the implementation answered       *)
(* (syntactic verdict, verdict on the decoded bytes, ledger verdict, sizes,    *)
(* scores).  One state per record; what is printed per record is the set of    *)
(* violated rules and the set of disagreements.                                *)
EXTENDS Nova, Reasons

Recs == ndJsonDeserialize(IOEnv.VERIF_IN)
NRecs == Len(Recs)
Lanes == 8

Disagree(r, syn, vm) ==
  LET s == r.res  pp == PP(r.p)  outs == r.tx.outs IN
  UNION {
    \* encoding an object that lacks a mandatory part may fail in any way, its bytes must be rejected
    If((s.syn = "ok") # (syn = {}), "syn"),
    If(s.dec # "encode" /\ (s.dec = "ok") # (syn = {}), "dec"),
    If(s.panic = 1 /\ ~(s.syn = "panic" /\ s.dec \notin {"ok", "panic"} /\ "S01:structure" \in syn), "panic"),
    If(s.dec = "ok" /\ s.rt # 1, "roundtrip"),
    If(s.nondet = 1, "nondeterministic"),
    If(s.mut = 1, "mutated"),
    IF s.len = 0 \/ syn # {} THEN {} ELSE UNION {
      If(s.len # SignedSize(r) \/ s.size # SignedSize(r), "size"),
      If(s.olen # [j \in DOMAIN outs |-> OutSize(outs[j])] \/ s.osize # [j \in DOMAIN outs |-> OutSize(outs[j])], "outsize"),
      If(s.score # [j \in DOMAIN outs |-> FromInt(OutScore(pp, outs[j]))], "score"),
      If(s.work # SignedWork(pp, r), "work") },
    IF syn # {} \/ s.syn # "ok" THEN {} ELSE If((s.vm = "ok") # (vm = {}), "vm"),
    \* a refusal is reported as one of the rules broken
    IF syn # {} \/ s.syn # "ok" \/ vm = {} \/ s.vm \in {"ok", "none", "panic"} THEN {} ELSE If(s.reason \notin UNION {ReasonsOf(x) : x \in vm}, "reason") }

Judge(i) ==
  LET r == Recs[i]
      syn == SynFailed(r)
      vm == IF syn = {} THEN VmFailed(r) ELSE {}
      d == Disagree(r, syn, vm)
  IN IF r.res.syn = "encode" THEN PrintT("REC " \o ToJson([i |-> i, syn |-> {}, vm |-> {}, d |-> {"unbuilt"}]))
     ELSE PrintT("REC " \o ToJson([i |-> i, syn |-> syn, vm |-> vm, d |-> d]))

VARIABLE i
Init == i \in 1..Min2(Lanes, NRecs)
Next == i + Lanes <= NRecs /\ i' = i + Lanes
Spec == Init /\ [][Next]_i
Judged == Judge(i)
=============================================================================
