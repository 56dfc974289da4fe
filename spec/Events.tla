------------------------------- MODULE Events --------------------------------
(* The event client of a node: subscriptions to topics, messages the node       *)
(* publishes under them, and what consumers receive.                            *)
(* A history is a sequence of operations; o.res is what came of one.            *)
EXTENDS Integers, Sequences, FiniteSets

\* ---------------------------------------------------------------- topics ----
\* what each event is published under; "<x>" stands for the argument, in hexadecimal or as text of an address
Hex == "<hex>"
Txt == "<bech32>"
Conditions == {"+", "address", "storage-return", "expiration", "state-controller", "governor", "immutable-account"}
Plain == {"CommitmentsLatest", "CommitmentsFinalized", "Blocks", "BlocksValidation", "BlocksBasic", "BlocksBasicWithTaggedData", "BlocksBasicWithTransactions",
          "BlocksBasicWithTransactionsWithTaggedData", "BlockMetadataAcceptedBlocks", "BlockMetadataConfirmedBlocks"}
ByTag == {"BlocksBasicWithTaggedDataByTag", "BlocksBasicWithTransactionsWithTaggedDataByTag"}
ById == {"BlockMetadataTransactionIncludedBlocksByTransactionID", "TransactionMetadataByTransactionID", "BlockMetadataByBlockID", "OutputWithMetadataByOutputID",
         "OutputsWithMetadataByAccountID", "OutputsWithMetadataByAnchorID", "OutputsWithMetadataByFoundryID", "OutputsWithMetadataByNFTID", "OutputsWithMetadataByDelegationID"}
ByAddr == {"OutputsWithMetadataByUnlockConditionAndAddress"}
Events == Plain \cup ByTag \cup ById \cup ByAddr
Base(m) ==
  CASE m = "CommitmentsLatest" -> <<"commitments", "latest">>
    [] m = "CommitmentsFinalized" -> <<"commitments", "finalized">>
    [] m = "Blocks" -> <<"blocks">>
    [] m = "BlocksValidation" -> <<"blocks", "validation">>
    [] m = "BlocksBasic" -> <<"blocks", "basic">>
    [] m = "BlocksBasicWithTaggedData" -> <<"blocks", "basic", "tagged-data">>
    [] m = "BlocksBasicWithTaggedDataByTag" -> <<"blocks", "basic", "tagged-data", Hex>>
    [] m = "BlocksBasicWithTransactions" -> <<"blocks", "basic", "transaction">>
    [] m = "BlocksBasicWithTransactionsWithTaggedData" -> <<"blocks", "basic", "transaction", "tagged-data">>
    [] m = "BlocksBasicWithTransactionsWithTaggedDataByTag" -> <<"blocks", "basic", "transaction", "tagged-data", Hex>>
    [] m = "BlockMetadataTransactionIncludedBlocksByTransactionID" -> <<"transactions", Hex, "included-block-metadata">>
    [] m = "TransactionMetadataByTransactionID" -> <<"transaction-metadata", Hex>>
    [] m = "BlockMetadataByBlockID" -> <<"block-metadata", Hex>>
    [] m = "BlockMetadataAcceptedBlocks" -> <<"block-metadata", "accepted">>
    [] m = "BlockMetadataConfirmedBlocks" -> <<"block-metadata", "confirmed">>
    [] m = "OutputWithMetadataByOutputID" -> <<"outputs", Hex>>
    [] m = "OutputsWithMetadataByAccountID" -> <<"outputs", "account", Txt>>
    [] m = "OutputsWithMetadataByAnchorID" -> <<"outputs", "anchor", Txt>>
    [] m = "OutputsWithMetadataByFoundryID" -> <<"outputs", "foundry", Hex>>
    [] m = "OutputsWithMetadataByNFTID" -> <<"outputs", "nft", Txt>>
    [] m = "OutputsWithMetadataByDelegationID" -> <<"outputs", "delegation", Hex>>
    [] OTHER -> <<>>
\* clients read the binary form of every event
Topic(m, cond) == (IF m \in ByAddr THEN <<"outputs", "unlock", cond, Txt>> ELSE Base(m)) \o <<"raw">>
ExactlyOnce == 2      \* the quality of service under which the node sends every message once

\* where the broker of a node is found
Broker(scheme, rest) == (CASE scheme = "http" -> "ws" [] scheme = "https" -> "wss") \o "://" \o rest \o "/api/mqtt/v2"

\* payloads: "valid", or of no object: cut short, empty, of a version nobody knows
Classes(m) == {"valid", "cut", "empty"} \cup (IF m \in {"Blocks", "BlocksBasic", "BlocksValidation"} THEN {"version"} ELSE {})

\* ----------------------------------------------------------------- state ----
\* subs: by number, [t |-> topic and argument, live |-> its topic is routed to it]; fly: messages on their way to a consumer <<subscription, message>>;
\* late: those that had not been received when the context ended, which may or may not be there still
Fresh == [up |-> FALSE, ctx |-> FALSE, subs |-> <<>>, fly |-> {}, late |-> {}, out |-> {}, bad |-> 0]
SubAt(st, o) == [t |-> <<o.m, o.cond, o.arg>>, live |-> o.ans = "ok", ok |-> o.ans = "ok"]
\* whether a message published for subscription k goes to it: the last one of the topic has it
Routed(st, k) == st.subs[k].live
Out(v, msg) == [v |-> v, msg |-> msg]
Waiting(st, k) == {f \in st.fly : f[1] = k}
Left(st, k) == {f \in st.late : f[1] = k}
Take(st, S) == {<<Out("msg", f[2]), [st EXCEPT !.fly = @ \ {f}, !.late = @ \ {f}, !.out = @ \cup {f}]>> : f \in S}
Dead(subs) == SubSeq([j \in 1..Len(subs) |-> [subs[j] EXCEPT !.live = FALSE]], 1, Len(subs))

\* what may come of operation o, number n of the history, in state st: pairs of outcome and next state
Steps(st, o, n) ==
  CASE o.op = "connect" -> {<<Out(IF o.ans = "ok" THEN "ok" ELSE "err", 0), [st EXCEPT !.up = o.ans = "ok", !.ctx = TRUE,
                                            !.subs = IF o.ans = "ok" THEN @ ELSE Dead(@)]>>}
    [] o.op = "sub" ->
         IF ~st.ctx \/ ~st.up THEN {<<Out("inactive", 0), [st EXCEPT !.subs = Append(@, [SubAt(st, o) EXCEPT !.live = FALSE, !.ok = FALSE])]>>}
         ELSE IF o.ans # "ok" THEN {<<Out("err", 0), [st EXCEPT !.subs = Append(@, SubAt(st, o))]>>}
         ELSE {<<Out("ok", 0), [st EXCEPT !.subs = Append([j \in DOMAIN @ |-> IF @[j].t = SubAt(st, o).t THEN [@[j] EXCEPT !.live = FALSE] ELSE @[j]], SubAt(st, o))]>>}
    [] o.op = "pub" ->
         IF ~Routed(st, o.s) THEN {<<Out("nobody", 0), st>>}
         ELSE IF o.cls # "valid" THEN {<<Out("reported", 0), [st EXCEPT !.bad = @ + 1]>>}
         ELSE {<<Out("ok", 0), IF st.ctx THEN [st EXCEPT !.fly = @ \cup {<<o.s, n>>}] ELSE [st EXCEPT !.late = @ \cup {<<o.s, n>>}]>>}
    [] o.op = "recv" ->
         (IF Waiting(st, o.s) = {} THEN {<<Out("nothing", 0), st>>} ELSE {}) \cup Take(st, Waiting(st, o.s) \cup Left(st, o.s))
    [] o.op = "close" ->
         IF ~st.subs[o.s].ok THEN {<<Out("err", 0), st>>}
         ELSE IF o.ans # "ok" THEN {<<Out("err", 0), st>>}
         ELSE {<<Out("ok", 0), [st EXCEPT !.subs = [j \in DOMAIN @ |-> IF @[j].t = @[o.s].t THEN [@[j] EXCEPT !.live = FALSE] ELSE @[j]]]>>}
    [] o.op = "cancel" -> {<<Out("ok", 0), [st EXCEPT !.ctx = FALSE, !.fly = {}, !.late = @ \cup st.fly]>>}
    [] o.op = "disconnect" -> {<<Out("ok", 0), [st EXCEPT !.up = FALSE, !.subs = Dead(@)]>>}
==============================================================================
