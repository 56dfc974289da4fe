-------------------------- MODULE ProviderConform ---------------------------
(* Judges recorded histories of the real provider: after every action all      *)
(* queries were made; the state the specification is in after the same actions *)
(* determines the answers.                                                      *)
EXTENDS Provider, Lanes

QEpochs == 0..5
QVersions == 2..6
QSlots == {0, 7, 8, 14, 15, 22, 23, 30, 31, 39, 200}

\* answers to queries are functions keyed by the decimal text of the argument
D(name, got, S, F(_)) == {name \o "(" \o ToString(x) \o ")" : x \in {y \in S : got[ToString(y)] # F(y)}}

Obs(s, o) ==
  UNION {
    D("APIForEpoch", o.epoch, QEpochs, LAMBDA e : ForEpoch(s, e)),
    D("APIForSlot", o.slot, QSlots, LAMBDA x : ForSlot(s, x)),
    D("APIForTime", o.time, QSlots, LAMBDA x : ForSlot(s, x)),
    D("VersionForSlot", o.vslot, QSlots, LAMBDA x : VersionAt(s, x)),
    D("APIForVersion", o.version, QVersions, LAMBDA v : Rules(s, v)),
    D("ProtocolParameters", o.params, QVersions, LAMBDA v : IF v \in s.params THEN v ELSE 0),
    D("EpochForVersion", o.start, QVersions, LAMBDA v : StartOf(s, v)),
    D("ProtocolParametersHash", o.phash, QVersions, LAMBDA v : HashOf(s, v)),
    If(o.latest # s.latest, "LatestAPI"),
    If(o.committed \notin {s.committed, s.committedMax}, "CommittedAPI"),
    If({<<q.v, q.e>> : q \in {o.known[j] : j \in DOMAIN o.known}} # {<<v, s.start[v]>> : v \in Vers(s)} \/ \E j \in 2..Len(o.known) : o.known[j].v <= o.known[j - 1].v, "ProtocolEpochVersions"),
    If((o.hash = "") # ~Hashable(s), "VersionsAndProtocolParametersHash") }

\* walks the history; result: disagreements, classes, contents at each hash
RECURSIVE Walk(_, _, _, _)
Walk(s, h, o, j) ==
  IF j > Len(h) THEN [d |-> {}, c |-> {}, k |-> <<>>]
  ELSE LET r == Step(s, h[j])
           rest == Walk(r.s, h, o, j + 1)
           ver == InForce(r.s, EpochAt(r.s.cslot))
       IN [d |-> rest.d \cup Obs(r.s, o[j]) \cup If(r.ok # (o[j].ok = 1), h[j].op \o (IF r.ok THEN ":failed" ELSE ":no error")),
           c |-> rest.c \cup {h[j].op} \cup If(~r.ok, h[j].op \o " fails") \cup If(r.s.committed # s.committed, "committed version rises")
                        \cup If(\E e \in QEpochs : InForce(r.s, e) > 0 /\ InForce(r.s, e) \notin r.s.params, "version in force without parameters")
                        \cup If(r.s.committed # r.s.committedMax, "committed slot went back"),
           k |-> <<IF Hashable(r.s) THEN [h |-> o[j].hash, c |-> Content(r.s)] ELSE [h |-> "", c |-> {}]>> \o rest.k]

Judge(k) ==
  LET r == Recs[k]  w == Walk(Empty, r.h, r.o, 1) IN
  /\ Say(k, w.d, w.c, {})
  /\ \A j \in DOMAIN w.k : w.k[j].h = "" \/ PrintT("HASH " \o ToJson(w.k[j]))
Judged == Judge(i)
=============================================================================
