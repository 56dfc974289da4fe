-------------------------- MODULE MessagesConform ---------------------------
(* Judges the bytes and JSON the real code makes of messages, and what it makes *)
(* of bytes and JSON.                                                           *)
EXTENDS Messages, Lanes

\* JSON as recorded, objects in any order
RECURSIVE Norm(_)
Norm(j) == IF j[1] = "o" THEN <<"o", {<<j[2][k][1], Norm(j[2][k][2])>> : k \in DOMAIN j[2]}>>
           ELSE IF j[1] = "a" THEN <<"a", SubSeq([k \in DOMAIN j[2] |-> Norm(j[2][k])], 1, Len(j[2]))>>
           ELSE <<j[1], j[2]>>
\* parts specified elsewhere, normalized likewise
RECURSIVE NV(_, _)
NV(t, v) ==
  CASE t.k = "raw" -> [b |-> v.b, j |-> Norm(v.j)]
    [] t.k = "msg" -> [n \in DOMAIN v |-> NV(Types[t.t][CHOOSE j \in DOMAIN Types[t.t] : Types[t.t][j].n = n].t, v[n])]
    [] t.k = "list" -> SubSeq([j \in DOMAIN v |-> NV(t.e[1], v[j])], 1, Len(v))
    [] OTHER -> v
Fields(m) == {Types[m][j].n : j \in DOMAIN Types[m]}
Field(m, key) == Types[m][CHOOSE j \in DOMAIN Types[m] : Types[m][j].j = key]
Keys(m) == {Types[m][j].j : j \in DOMAIN Types[m]}
\* a value of its type that is empty
Gone(t, v) ==
  CASE t.k \in {"num", "big", "time"} -> Zero
    [] t.k \in {"str", "list", "opt"} -> <<>>
    [] t.k = "bytes" -> SubSeq([j \in DOMAIN v |-> 0], 1, Len(v))
    [] OTHER -> v

Msgs(r) ==
  LET m == r.t  t == Msg(m) IN
  IF r.panic # "" THEN {"panic in " \o r.panic}
  ELSE IF DOMAIN r.v # Fields(m) THEN {"fields"}
  ELSE LET v == NV(t, r.v) IN UNION {
    If(r.b # Enc(t, v), "bytes"),
    If(Norm(r.j) # Js(t, v), "JSON"),
    If(r.back # r.v, "from bytes"), If(r.used # Len(r.b), "bytes used"),
    If(r.jback # r.v, "from JSON"),
    If(r.short # <<>>, "shortened bytes accepted"),
    UNION {LET d == r.drops[k]  f == Field(m, d.key) IN
           IF d.key \notin Keys(m) THEN {"unknown field in JSON"}
           ELSE IF ~f.omit THEN If(d.ok = 1, "JSON without a mandatory field accepted")
           ELSE IF d.ok = 0 THEN {"JSON without an optional field refused"}
           ELSE If(d.v # [r.v EXCEPT ![f.n] = Gone(f.t, @)], "JSON without an optional field") : k \in DOMAIN r.drops} }
Judge(k) == LET r == Recs[k] IN Say(k, Msgs(r), {r.t, r.from} \cup (IF r.drops = <<>> THEN {} ELSE {"left out"}), {})
Judged == Judge(i)
=============================================================================
