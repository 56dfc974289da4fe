----------------------------- MODULE MC_Events -------------------------------
(* Histories of a node's event client: all short ones, simulated longer ones.   *)
EXTENDS Events, TLC, Json
CONSTANTS MaxOps, Methods, Clumsy   \* Clumsy: also connections and subscriptions that are refused

O0 == [op |-> "", m |-> "", cond |-> "", arg |-> 0, s |-> 0, cls |-> "", ans |-> "ok"]
VARIABLES st, h, pubs
vars == <<st, h, pubs>>
Ms == IF Methods = "few" THEN {"CommitmentsLatest", "BlockMetadataByBlockID"} ELSE Events
Args(m) == IF m \in Plain THEN {0} ELSE IF Methods = "few" THEN {1} ELSE {1, 2, 3}
Conds(m) == IF m \in ByAddr THEN Conditions ELSE {""}
Answers == IF Clumsy THEN {"ok", "refused"} ELSE {"ok"}
\* long histories spend their first half connected
Late == MaxOps < 9 \/ 2 * Len(h) > MaxOps
N == DOMAIN st.subs
Ops ==
  {[O0 EXCEPT !.op = "sub", !.m = m, !.cond = c, !.arg = a, !.ans = x] : m \in Ms, c \in UNION {Conds(m) : m \in Ms}, a \in 0..3, x \in Answers}
  \cup {[O0 EXCEPT !.op = "pub", !.s = s, !.cls = c] : s \in N, c \in {"valid", "cut", "empty", "version"}}
  \cup {[O0 EXCEPT !.op = "recv", !.s = s] : s \in {x \in N : st.subs[x].ok}}
  \cup {[O0 EXCEPT !.op = "close", !.s = s, !.ans = x] : s \in {x \in N : h[1].op = "connect"}, x \in Answers}
  \cup {[O0 EXCEPT !.op = x] : x \in {"cancel", "disconnect"}}
  \cup {[O0 EXCEPT !.op = "connect", !.ans = x] : x \in Answers}
Fits(o) ==
  CASE o.op = "sub" -> o.cond \in Conds(o.m) /\ o.arg \in Args(o.m) /\ Len(st.subs) < 4 /\ (o.ans = "ok" \/ Late \/ o.m \in {"Blocks", "OutputWithMetadataByOutputID", "BlockMetadataAcceptedBlocks"})
    [] o.op = "pub" -> st.subs[o.s].ok /\ o.cls \in Classes(st.subs[o.s].t[1])
    [] o.op = "close" -> TRUE
    \* the context is replaced only while nothing is under way, and after one has ended
    [] o.op = "connect" -> ~st.ctx \/ (st.fly = {} /\ ~st.up)
    [] o.op = "cancel" -> st.ctx /\ Late
    [] o.op = "disconnect" -> st.up /\ Late
    [] OTHER -> TRUE
Init == st = [Fresh EXCEPT !.up = TRUE, !.ctx = TRUE] /\ h = << [O0 EXCEPT !.op = "connect"] >> /\ pubs = {}
Next == Len(h) < MaxOps /\ \E o \in {x \in Ops : Fits(x)} : \E r \in Steps(st, o, Len(h) + 1) :
          /\ st' = r[2] /\ h' = Append(h, o)
          /\ pubs' = IF o.op = "pub" /\ r[1].v = "ok" THEN pubs \cup {<<o.s, Len(h) + 1>>} ELSE pubs
Spec == Init /\ [][Next]_vars
View == <<st, h>>
\* -------------------------------------------------------------------- laws --
\* nothing is received that was not published, nothing twice (out and fly are disjoint sets of messages)
Honest == st.out \cup st.fly \cup st.late \subseteq pubs /\ st.out \cap (st.fly \cup st.late) = {} /\ st.fly \cap st.late = {}
\* nothing published is lost while the context lives and never ended
Kept == (\A j \in DOMAIN h : h[j].op # "cancel") => pubs = st.out \cup st.fly /\ st.late = {}
\* one subscription at most has a topic; none without connection
Single == \A a, b \in N : st.subs[a].live /\ st.subs[b].live /\ st.subs[a].t = st.subs[b].t => a = b
Offline == ~st.up => \A a \in N : ~st.subs[a].live
\* nothing is under way once the context has ended
Ended == ~st.ctx => st.fly = {}
\* whatever waits can be received, whoever else waits
Ready == \A f \in st.fly : \E r \in Steps(st, [O0 EXCEPT !.op = "recv", !.s = f[1]], 0) : r[1].msg = f[2]
\* different events have different topics
Distinct == \A a, b \in Events \ ByAddr : Topic(a, "") = Topic(b, "") => a = b
Emit == Len(h) = MaxOps => PrintT("CASE " \o ToJson([h |-> h]))
==============================================================================
