-------------------------- MODULE TxBuilderConform --------------------------
(* Judges what the real transaction builder answered and built.                *)
EXTENDS TxBuilder
Recs == ndJsonDeserialize(IOEnv.VERIF_IN)
NRecs == Len(Recs)
Lanes == 8

Pairs(s) == {<<s[k].acc, s[k].mana>> : k \in {x \in DOMAIN s : s[x].mana # Zero}}
ManaDiff(g, w, what) ==
  IF g.err # w.err THEN {what \o (IF w.err = 1 THEN ": answered what must fail" ELSE ": refused")}
  ELSE IF w.err = 1 THEN {}
  ELSE UNION {If(g[x] # w[x], what \o ": " \o x) : x \in {"total", "unbound", "pot", "stored", "upot", "ustored", "rew"}}
       \cup If(Pairs(g.bound) # {p \in w.bound : p[2] # Zero}, what \o ": bound")
CtxLt(c, d) == LET n(x) == CASE x.k = "cmt" -> 0 [] x.k = "bic" -> 1 [] OTHER -> 2 IN
  n(c) < n(d) \/ (n(c) = n(d) /\ CASE c.k = "bic" -> c.r < d.r [] c.k = "rew" -> c.idx < d.idx [] OTHER -> FALSE)
Sorted(s) == \A k \in 1..(Len(s) - 1) : ~CtxLt(s[k + 1], s[k])
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
BuiltDiff(g, b, tg, keys, what) ==
  LET us == UnlocksFor(b.r, tg, keys) fails == BuildFails(b, tg, keys) IN
  IF g.err = 2 THEN {what \o ": failure lost on the way to a block"}
  ELSE IF (g.err = 1) # fails THEN {what \o (IF fails THEN ": built what must fail" ELSE ": refused")}
  ELSE IF fails THEN {}
  ELSE UNION {
    If(g.unl # us, what \o ": unlocks"),
    If(g.outs # [j \in DOMAIN b.r.tx.outs |-> b.r.tx.outs[j].mana], what \o ": stored mana"),
    If(Pairs(g.allot) # Pairs(b.r.tx.allot) \/ Len(g.allot) # Cardinality(Pairs(b.r.tx.allot)), what \o ": allotments"),
    If(g.sorted # 1, what \o ": order of allotments"),
    If(~Sorted(g.ctx) \/ Len(g.ctx) # Len(b.r.tx.ctx) \/ \E x \in Range(g.ctx) : Times(g.ctx, x) # Times(b.r.tx.ctx, x), what \o ": context inputs"),
    If(g.same # 1, what \o ": other parts"),
    If(g.again # 1, what \o ": built twice differently") }

Judge(k) ==
  LET q == Recs[k]
      keys == Range(q.keys)
      b0 == Begin(q.r)
      at(n) == Steps(b0, q.tg, keys, q.ops, n)
      end == at(Len(q.ops))
      opDiff(n) ==
        LET o == q.ops[n] v == q.vals[n] IN
        CASE o.m = "cost" -> LET c == Cost(at(n - 1), q.tg, keys, o.mana, o.acc) IN If(v.err # c.err \/ v.v # c.v, "cost")
          [] o.m = "left" /\ ~at(n - 1).err -> ManaDiff(v.mana, Left(at(n - 1).r, o.at), "remaining mana")
          [] OTHER -> {}
      d == IF q.panic = 1 THEN {"panic"}
           ELSE UNION ({ManaDiff(q.avail, Avail(b0.r, q.at), "available mana")} \cup {opDiff(n) : n \in DOMAIN q.ops}
                \cup {BuiltDiff(q.built, end, q.tg, keys, "transaction")}
                \cup {IF q.clone < 0 THEN {} ELSE BuiltDiff(q.orig, at(q.clone), q.tg, keys, "original after its clone went on")})
      us == UnlocksFor(end.r, q.tg, keys)
      last == q.ops[Len(q.ops)]
      laws == If(~UnlockLaw(end.r, q.tg, us), "unlocks built for the claimants do not unlock")
              \cup If(Len(q.ops) > 0 /\ ~end.err /\ last.m \in {"all", "store", "min"} /\ ~Emptied(end, last.at, {}), "mana left")
      cls == UNION {
        {"op " \o q.ops[n].m \o (IF at(n).err THEN " failed" ELSE "") : n \in DOMAIN q.ops},
        {"unlock " \o us[j].k : j \in DOMAIN us},
        {"target " \o (IF q.tg[j].k = "restr" THEN "restr" ELSE q.tg[j].k) : j \in DOMAIN q.tg},
        {IF BuildFails(end, q.tg, keys) THEN "build fails" ELSE "builds"},
        If(Avail(b0.r, q.at).err = 1, "no available mana"),
        If(Avail(b0.r, q.at).bound # {}, "bound mana"),
        If(\E j \in DOMAIN q.r.ins : q.r.ins[j].out.t = "account" /\ q.r.ins[j].out.id = 0, "account just created"),
        If(\E j \in DOMAIN q.r.ins : IsImplicit(q.r.ins[j].out), "implicit account"),
        If(q.clone >= 0, "cloned"),
        If((\A i \in DOMAIN q.tg : q.tg[i] = Claimant(q.r, i)), "claimants") }
  IN PrintT("REC " \o ToJson([i |-> k, d |-> d, l |-> laws, c |-> cls]))
VARIABLE i
Init == i \in 1..Min2(Lanes, NRecs)
Next == i + Lanes <= NRecs /\ i' = i + Lanes
Spec == Init /\ [][Next]_i
Judged == Judge(i)
=============================================================================
