---------------------------- MODULE ClientConform ----------------------------
(* Judges recorded calls of the real clients: what they asked the scripted     *)
(* node and what they gave back must be a run of Client.                       *)
EXTENDS Client, Lanes
Pairs(q) == {<<q[j][1], q[j][2]>> : j \in DOMAIN q}
Host(v) == IF v \in {"hook", "both"} THEN "http://proxy:99" ELSE "http://node:14265"
Auth(v) == IF v \in {"user", "both"} THEN "me:secret" ELSE ""
\* what differs between a request made and the one to be made
AskDiff(r, g, w) ==
  UNION {If(g.verb # w.verb, "verb"), If(g.path # w.path, "path"), If(Pairs(g.q) # w.q \/ Len(g.q) # Cardinality(w.q), "query"), If(g.accept # w.accept, "accept"),
         If(g.ctype # w.ctype, "content type"), If(g.body # w.body, "body"), If(g.host # Host(r.c.via), "host"), If(g.auth # Auth(r.c.via), "user"),
         IF r.c.op = "issue" /\ w.verb = "POST" THEN UNION {If(g.commit # "told", "commitment"), If(g.zeros < r.rs[1].target, "nonce")} ELSE {}}
Lengthy(r, w) == Len(r.asked) # Len(w)
\* an allowed outcome: "any" stands for any error but a crash
Matches(o, x, c) == o.ok = x.ok /\ (IF x.ok = 1 THEN o.val = x.val ELSE o.err # "panic" /\ (x.err = "any" \/ o.err = x.err) /\ (c.op = "pages" => o.val = x.val))
OutDiff(r, out) ==
  IF \E x \in out : Matches(r.out, x, r.c) THEN {}
  ELSE IF r.out.err = "panic" THEN {"panic"}
  ELSE LET ok == \E x \in out : x.ok = 1  ko == \E x \in out : x.ok = 0 IN
       IF r.out.ok = 1 THEN (IF ok THEN {"another answer"} ELSE {"accepted what is no answer"})
       ELSE IF ~ko THEN {"refused"} ELSE {"another error"}
Kinds(r) == IF r.c.op = "call" THEN r.c.m ELSE r.c.op \o (IF r.c.kind # "" THEN "." \o r.c.kind ELSE "") \o (IF r.c.op = "plugin" THEN "." \o r.c.m ELSE "")
Last_(r) == LET x == r.rs[Len(r.rs)] IN ToString(x.st) \o " " \o x.b \o (IF x.alt # "" THEN " " \o x.alt ELSE "")
\* the one kind of deviation a listed finding covers: a proof moved to another position of its transaction
Swapped(r) == LET x == r.rs[Len(r.rs)] IN x.b = "output" /\ x.alt = "index"
Judge(k) ==
  LET r == Recs[k]  w == Run(r.c, r.rs) IN
  Say(k, {Kinds(r) \o ": " \o x : x \in
        (IF Lengthy(r, w.asked) THEN {"number of requests"} ELSE UNION {AskDiff(r, r.asked[j], w.asked[j]) : j \in DOMAIN w.asked}) \cup OutDiff(r, w.out)},
      {Kinds(r) \o " " \o (IF Swapped(r) THEN "moved proof" ELSE IF \E x \in w.out : x.ok = 1 THEN "ok" ELSE "error")} \cup {"reply " \o Last_(r)} \cup
      {"via " \o r.c.via}, {})
Judged == Judge(i)
=============================================================================
