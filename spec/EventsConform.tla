--------------------------- MODULE EventsConform -----------------------------
(* Judges recorded histories of the real event client.                          *)
EXTENDS Events, TLC, Json, IOUtils, Lanes

\* the outcome of operation o as recorded, judged in state st; -> [st, d]
Outcome(o) == Out(o.res.v, o.res.msg)
Judged1(a, o, n) ==
  LET st == a.st
      ways == {w \in Steps(st, o, n) : w[1] = Outcome(o)}
      exp == CHOOSE w \in Steps(st, o, n) : TRUE
      d == If(ways = {}, o.op \o " gives " \o o.res.v \o " in place of " \o exp[1].v)
           \cup If(o.op = "sub" /\ o.res.v = "ok" /\ o.res.topic # Topic(o.m, o.cond), "topic of " \o o.m)
           \cup If(o.op = "sub" /\ o.res.v = "ok" /\ o.res.qos # ExactlyOnce, "messages may be lost or repeated")
           \cup If(o.op = "sub" /\ o.res.v \in {"err", "inactive"} /\ o.res.chan = 1, "a channel although the subscription failed")
           \cup If(o.op = "close" /\ o.res.v = "ok" /\ (o.res.unsub # 1), "other topics unsubscribed")
      w == IF ways = {} THEN exp ELSE CHOOSE x \in ways : TRUE
  IN [st |-> w[2], d |-> a.d \cup {x \o "|" \o ToString(n) : x \in d}, c |-> a.c \cup {o.op \o ":" \o Outcome(o).v} \cup If(o.op = "sub", "event:" \o o.m), stop |-> ways = {}]
Fold[r \in 1..NRecs, n \in 0..64] == IF n = 0 THEN [st |-> Fresh, d |-> {}, c |-> {}, stop |-> FALSE]
                                     ELSE LET a == Fold[r, n - 1] IN IF a.stop THEN a ELSE Judged1(a, Recs[r].h[n], n)
JudgeHistory(k) ==
  LET r == Recs[k]
      a == Fold[k, Len(r.h)]
  IN Say(k, a.d \cup If(r.stuck # 0, "stuck|0") \cup If(r.left # 0 /\ ~a.stop, "deliveries outlive the context|0"), a.c, {})
\* the broker of a client
JudgeBroker(k) ==
  LET r == Recs[k] IN Say(k, If(r.got # <<Broker(r.scheme, r.rest)>>, "broker|0") \cup If(r.order # 0, "one consumer holds up the others|0"), {"broker"}, {})
Judged == IF "scheme" \in DOMAIN Recs[i] THEN JudgeBroker(i) ELSE JudgeHistory(i)
==============================================================================
