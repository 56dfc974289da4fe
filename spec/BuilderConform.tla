--------------------------- MODULE BuilderConform ---------------------------
(* Judges what the real builders built after the first n calls of a sequence.  *)
EXTENDS Builder, Lanes
ToF(ps) == [x \in {ps[j].t : j \in DOMAIN ps} |-> ps[CHOOSE j \in DOMAIN ps : ps[j].t = x].v]
Sorts(ps) == \A j \in 1..(Len(ps) - 1) : ps[j].t < ps[j + 1].t
Abs(o) == [s |-> o.s, c |-> ToF(o.c), f |-> ToF(o.f), i |-> ToF(o.i)]
B(r) == After(From(r.kind, Abs(r.start), r.prev = 1), r.calls, r.n)
Diff(r, b) ==
  LET w == Built(b) g == Abs(r.o) IN
  UNION {{"field " \o x : x \in {y \in DOMAIN w.s : y \notin DOMAIN g.s \/ g.s[y] # w.s[y]}},
         If(DOMAIN g.s # DOMAIN w.s, "fields"), If(g.c # w.c, "unlock conditions"), If(g.f # w.f, "features"), If(g.i # w.i, "immutable features"),
         If(~(Sorts(r.o.c) /\ Sorts(r.o.f) /\ Sorts(r.o.i)), "order"),
         If(r.kind \in Blocks /\ (r.verifies = 1) # Verifies(b), IF Verifies(b) THEN "signature does not verify" ELSE "signature verifies other content")}
Judge(k) ==
  LET r == Recs[k]  b == B(r) IN
  Say(k, {r.kind \o ":" \o x : x \in
        UNION {If(r.panic = 1, "panic"), If(r.kept # 1, "previous output altered"),
          IF r.panic = 1 THEN {} ELSE IF (r.fails = 1) # Fails(b) THEN {IF Fails(b) THEN "built what must fail" ELSE "refused"} ELSE IF Fails(b) THEN {} ELSE Diff(r, b)}},
      {r.kind \o (IF r.prev = 1 THEN ":previous" ELSE ":new") \o (IF Fails(b) THEN ":fails" ELSE "")} \cup
      (IF r.n = 0 THEN {} ELSE {r.kind \o "." \o r.calls[r.n].p \o r.calls[r.n].m}), {})
Judged == Judge(i)
=============================================================================
