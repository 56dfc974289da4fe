------------------------------ MODULE MC_Client -----------------------------
(* Every call against every node that replies from a small alphabet; the laws  *)
(* of a client hold on the specification, the runs are replayed on the real    *)
(* client.                                                                     *)
EXTENDS Client, TLC, Json
CONSTANTS MaxReplies, Wide, Long   \* Long: only calls that may take many replies

\* the uniform shapes of calls and replies
C0 == [op |-> "", m |-> "", arg |-> "", qa |-> <<>>, body |-> "", kind |-> "", max |-> 0, fetch |-> 0, via |-> "plain"]
R0 == [st |-> 200, b |-> "good", items |-> <<>>, cursor |-> "", slot |-> "5", c |-> "o1", p |-> "o1", alt |-> "", target |-> 0, addr |-> "account", n |-> 0]
Cl(op, m) == [C0 EXCEPT !.op = op, !.m = m]
Args(m) == IF Api(m).dec = "output" THEN {"o1", "o3", "o4", "o9"} ELSE IF m \in {"Health", "NetworkHealth", "Routes", "Info", "NetworkMetrics", "SubmitBlock", "BlockIssuance", "Validators", "Committee", "Peers", "AddPeer", "BlockIssuerInfo"} THEN {""} ELSE {"@"}
QAs(m) == CASE m = "Congestion" -> {<< <<"workScore", "0">> >>, << <<"workScore", "1">> >>, << <<"workScore", "77">> >>, << <<"workScore", "0">>, <<"commitmentId", "#">> >>, << <<"workScore", "4294967295">>, <<"commitmentId", "#">> >>}
            [] m = "Validators" -> {<< <<"pageSize", "0">> >>, << <<"pageSize", "3">> >>, << <<"pageSize", "0">>, <<"cursor", "1,2">> >>, << <<"pageSize", "18446744073709551615">>, <<"cursor", "a b&c=d">> >>}
            [] m = "Committee" -> {<<>>, << <<"epoch", "0">> >>, << <<"epoch", "4294967295">> >>}
            [] OTHER -> {<<>>}
Bodies(m) == IF m = "AddPeer" THEN {"multiAddress=/ip4/x", "alias=me,multiAddress=/ip4/x"} ELSE IF m = "SubmitBlock" THEN {"block"} ELSE {""}
Kinds == {"account", "anchor", "foundry", "nft", "delegation"}
\* filters of the queries
Bools(k) == CASE k = "basic" -> {"hasTimelock", "hasExpiration", "hasStorageDepositReturn", "hasNativeToken"} [] k = "nft" -> {"hasTimelock", "hasExpiration", "hasStorageDepositReturn"} [] k \in {"foundry", "outputs"} -> {"hasNativeToken"} [] OTHER -> {}
Nums(k) == {"pageSize", "createdBefore", "createdAfter"} \cup (IF k \in {"basic", "nft"} THEN {"timelockedBefore", "timelockedAfter", "expiresBefore", "expiresAfter"} ELSE {})
Strs(k) == CASE k = "basic" -> {"address", "sender", "tag", "expirationReturnAddress", "storageDepositReturnAddress", "nativeToken", "unlockableByAddress"}
             [] k = "nft" -> {"address", "sender", "issuer", "tag", "expirationReturnAddress", "storageDepositReturnAddress", "unlockableByAddress"}
             [] k = "account" -> {"address", "sender", "issuer", "unlockableByAddress"} [] k = "anchor" -> {"stateController", "governor", "issuer", "unlockableByAddress"}
             [] k = "foundry" -> {"accountAddress", "nativeToken"} [] k = "outputs" -> {"nativeToken", "unlockableByAddress"} [] k = "delegation" -> {"address", "validator"}
Filters(k) == {<<>>, << <<"pageSize", "9">>, <<"createdAfter", "5">> >>} \cup {<< <<x, v>> >> : x \in Bools(k), v \in {"true", "false"}} \cup {<< <<x, "4294967295">> >> : x \in Nums(k)} \cup {<< <<x, "a+b c&d" >> >> : x \in Strs(k)}

CallsOf ==
  UNION {{[Cl("call", m) EXCEPT !.arg = a, !.qa = q, !.body = b, !.via = v] : a \in Args(m), q \in QAs(m), b \in Bodies(m), v \in IF Wide THEN {"plain", "user", "hook", "both"} ELSE {"plain", "both"}} : m \in Methods}
  \cup {[Cl("validators", "") EXCEPT !.max = x] : x \in {-1, 0, 1, 2, 3}}
  \cup UNION {{[Cl("pages", "") EXCEPT !.kind = k, !.qa = q, !.fetch = f] : f \in {0, 1}, q \in Filters(k)} : k \in Kinds \cup {"basic", "outputs"}}
  \cup {[Cl("single", "") EXCEPT !.kind = k, !.arg = "@"] : k \in Kinds}
  \cup {Cl("plugin", p) : p \in {"Management", "Indexer", "EventAPI", "BlockIssuer"}}
  \cup {[Cl("init", "") EXCEPT !.via = v] : v \in {"plain", "user", "hook", "both"}}
  \cup {[Cl("issue", "") EXCEPT !.kind = k] : k \in {"payload", "builder"}}

Statuses == {200, 201, 202, 204, 400, 401, 403, 404, 418, 429, 500, 501, 502, 503, 504}
Bad == {"empty", "html", "array", "errenv", Lost, "dead"}
Fail == {[R0 EXCEPT !.b = "dead"], [R0 EXCEPT !.st = 404, !.b = "errenv"], [R0 EXCEPT !.st = 500, !.b = "html"], [R0 EXCEPT !.st = 204, !.b = "empty"], [R0 EXCEPT !.b = "array"]}
        \cup (IF Wide THEN {[R0 EXCEPT !.st = s, !.b = b] : s \in {200, 400, 503}, b \in Bad} ELSE {})
Simple(m) == {[R0 EXCEPT !.st = s, !.b = b] : s \in Statuses, b \in Bad \cup {"good"}} \cup {[R0 EXCEPT !.b = "more", !.st = s] : s \in {200, 201}}
             \cup (IF Api(m).dec = "json" THEN {[R0 EXCEPT !.b = b, !.n = n] : b \in {"missing", "wrong", "null"}, n \in 0..7} ELSE {})
OutReplies(o, full) ==
  {[R0 EXCEPT !.b = "output", !.c = o, !.p = o], [R0 EXCEPT !.b = "output", !.c = "o1", !.p = "o1"]} \cup Fail
  \cup (IF full THEN {[R0 EXCEPT !.b = "output", !.c = c, !.p = p, !.st = s] : c \in Outs, p \in Outs, s \in {200, 201}} \cup {[R0 EXCEPT !.b = "output", !.c = o, !.p = o, !.st = s] : s \in Statuses}
          \cup {[R0 EXCEPT !.b = "output", !.c = c, !.p = c, !.alt = a] : c \in {x \in Outs : Out(x)[1] = Out(o)[1]}, a \in {"slot", "commitment", "hash", "index"} } ELSE {})
\* an altered index is one other than the proof's own
OkReply(c, r) == ~(r.alt = "index" /\ r.p = c.arg) /\ ~(r.st = 204 /\ r.b \notin {"empty", "good", "dead", "output"})
PageItems(x) == {<<>>, <<"o1">>, <<"o3", "o4">>, <<"bad">>} \cup (IF Wide THEN {<<"o1", "o1">>, <<"o9", "bad">>, <<"o5", "o2", "o8">>} ELSE {})
PageReplies == {[R0 EXCEPT !.b = "page", !.items = i, !.cursor = x] : i \in PageItems(0), x \in {"", "c1"}} \cup {[R0 EXCEPT !.b = "page", !.items = <<"o1">>, !.cursor = "c 2&"]} \cup Fail
ValReplies == {[R0 EXCEPT !.b = "page", !.items = i, !.cursor = x] : i \in {<<>>, <<"v1">>, <<"v2", "v3">>}, x \in {"", "c1", "c 2&"}} \cup Fail
OneItems(k) == {<<>>, <<"bad">>, <<"o1">>} \cup {<<o>> : o \in {x \in Outs : Kind(x) = k}} \cup {<<o, "o1">> : o \in {x \in Outs : Kind(x) = k}} \cup {<<"o3">>, <<"o4", "bad">>}
RouteItems == {<<>>, <<"core/v3">>, <<"core/v3", "indexer/v2", "mqtt/v2">>, <<"management/v1">>, <<"blockissuer/v1", "management/v1", "indexer/v2", "mqtt/v2">>, <<"indexer/v1">>, <<"blockissuer/v11">>, <<"", "indexer", "management/v", "xmqtt/v2", "blockissuer">>, <<"mqtt/v2", "mqtt/v2">>}
AnnItems == {<<>>, <<"a0">>, <<"a9">>, <<"b0">>, <<"c0">>, <<"x0">>, <<"a0", "x9">>, <<"x9", "a0">>}
IssuerReplies(k) == {[R0 EXCEPT !.b = "issuer", !.target = t, !.addr = a] : t \in {0, 1, 5, 8}, a \in IF k = "builder" THEN {"account", "ed", "junk"} ELSE {"account"}} \cup Fail

VARIABLES c, rs
vars == <<c, rs>>
\* what is asked next, as a reply to it must fit
Asked == LET a == Run(c, rs).asked IN a[Len(a)]
Replies ==
  CASE c.op = "call" -> {r \in (IF Api(c.m).dec = "output" THEN OutReplies(c.arg, TRUE) ELSE Simple(c.m)) : OkReply(c, r)}
    [] c.op = "validators" -> ValReplies
    [] c.op = "pages" -> IF Asked.accept = RAW THEN {r \in OutReplies(CHOOSE o \in Outs : Ask("OutputByID", o, {}, "") = Asked, FALSE) : TRUE} ELSE PageReplies
    [] c.op = "single" -> IF rs = <<>> THEN {[R0 EXCEPT !.b = "page", !.items = i, !.slot = s] : i \in OneItems(c.kind), s \in {"5", "4294967295"}} \cup Fail ELSE {r \in OutReplies(rs[1].items[1], TRUE) : ~(r.alt = "index" /\ r.p = rs[1].items[1])}
    [] c.op = "init" -> {[R0 EXCEPT !.b = "info", !.items = i, !.slot = s] : i \in AnnItems, s \in {"5", "73728"}} \cup Fail
    [] c.op = "plugin" -> {[R0 EXCEPT !.b = "routes", !.items = i] : i \in RouteItems} \cup Fail
    [] c.op = "issue" -> IF rs = <<>> THEN IssuerReplies(c.kind) ELSE IF Asked.verb = "GET" THEN {[R0 EXCEPT !.b = "issuance", !.slot = s] : s \in {"9", "11"}} \cup Fail ELSE {[R0 EXCEPT !.b = "created", !.st = 201], [R0 EXCEPT !.b = "created"]} \cup Fail

\* queries with filters are followed for one page only
Deep == c.op # "pages" \/ c.qa = <<>> \/ Len(rs) < 2
Init == c \in (IF Long THEN {x \in CallsOf : x.op \in {"validators", "pages", "single", "issue"}} ELSE CallsOf) /\ rs = <<>>
Next == Run(c, rs).more /\ Len(rs) < MaxReplies /\ Deep /\ \E r \in Replies : rs' = Append(rs, r) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Res == Run(c, rs)
Answers == {x : x \in Res.out}
\* ------------------------------------------------------------------- laws ---
\* as many requests as replies, one more while waiting
Lockstep == Len(Res.asked) = (IF Res.more THEN Len(rs) + 1 ELSE Len(rs))
\* a call that is over has a definite kind of outcome
Definite == ~Res.more => Res.out # {}
\* success needs every reply to have been a success (or an unhealthy node saying so)
NoFalseHope == \A x \in Answers : x.ok = 1 => \A j \in DOMAIN rs : rs[j].b # "dead" /\ (Good(rs[j].st) \/ rs[j].st = 204 \/ (rs[j].st = 503 /\ x.val = <<"false">>))
\* pages are asked for in order, each with the cursor the one before told, none twice
InOrder == c.op \in {"pages", "validators"} =>
  LET P == {j \in DOMAIN Res.asked : Res.asked[j].accept = JSON}
      cur(j) == LET S == {p[2] : p \in {y \in Res.asked[j].q : y[1] = "cursor"}} IN IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE
  IN \A j \in P : \A k \in P : j < k /\ (\A l \in P : ~(j < l /\ l < k)) => rs[j].cursor # "" /\ cur(k) = rs[j].cursor
\* what is collected is what the pages had, in order
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(SubSeq(s, 2, Len(s)))
Collected == c.op = "validators" => \A x \in Answers : x.ok = 1 => SubSeq(x.val, 1, Len(x.val) - 1) = Flat([j \in DOMAIN rs |-> rs[j].items])
Whole == c.op = "validators" => \A x \in Answers : x.ok = 1 => ((x.val[Len(x.val)] = "all") = (rs[Len(rs)].cursor = ""))
\* an output comes back only with its own content
Tied == (c.op = "call" /\ Api(c.m).dec = "output") => \A x \in Answers : x.ok = 1 => x.val = <<Content(c.arg)>> /\ Content(rs[1].c) = Content(c.arg)
\* an index query for one chain gives an output of that kind
OfKind == c.op = "single" => \A x \in Answers : x.ok = 1 => Kind(x.val[1]) = c.kind /\ x.val[1] = rs[1].items[1]
Emit == Res.more \/ rs = <<>> \/ PrintT("CASE " \o ToJson([c |-> c, rs |-> rs, f |-> IF c.op = "call" THEN Api(c.m).f ELSE <<>>]))
=============================================================================
