------------------------------- MODULE Client -------------------------------
(* The clients of a node as coroutines: what a call asks, given the replies    *)
(* so far, and what it returns once it has all it needs.  A node may reply     *)
(* anything: any status, any body, nothing at all.                             *)
EXTENDS Integers, Sequences, FiniteSets

JSON == "application/json"
RAW  == "application/vnd.iota.serializer-v2"

\* ------------------------------------------------------------- the surface --
\* verb, path around its parameter, Accept and Content-Type, how the body is read, fields of the body
E(verb, pre, post, accept, ctype, dec, f) == [verb |-> verb, pre |-> pre, post |-> post, accept |-> accept, ctype |-> ctype, dec |-> dec, f |-> f]
Core == "/api/core/v3"
Mgmt == "/api/management/v1"
Idx  == "/api/indexer/v2"
Iss  == "/api/blockissuer/v1"
GetJ(pre, post, f) == E("GET", pre, post, JSON, "", "json", f)
GetR(pre, post, o) == E("GET", pre, post, RAW, "", "raw", <<o>>)

CommitmentF == <<"protocolVersion:u8", "slot:u32", "previousCommitmentId:36", "rootsId:32", "cumulativeWeight:u64", "referenceManaCost:u64">>
Under(p, f) == SubSeq([j \in 1..Len(f) |-> p \o "." \o f[j]], 1, Len(f))
BlockMetaF == <<"blockId:36", "blockState:bstate">>
IncludedF == <<"slot:u32", "transactionId:36", "commitmentId:36?">>
OutputMetaF == <<"outputId:38", "blockId:36">> \o Under("included", IncludedF) \o Under("spent?", IncludedF) \o <<"latestCommitmentId:36">>
ValidatorF == <<"address:str", "stakingEndEpoch:u32", "poolStake:u64", "validatorStake:u64", "fixedCost:u64", "active:bool", "latestSupportedProtocolVersion:u8", "latestSupportedProtocolHash:32">>
MemberF == <<"address:str", "poolStake:u64", "validatorStake:u64", "fixedCost:u64">>
PeerF == <<"id:str", "multiAddresses[]:str", "alias:str?", "relation:str", "connected:bool", "gossipMetrics.packetsReceived:u32", "gossipMetrics.packetsSent:u32">>
ChangesF == <<"commitmentId:36", "createdOutputs[]:38", "consumedOutputs[]:38">>
FullChangesF == <<"commitmentId:36", "createdOutputs[].outputId:38", "createdOutputs[].output:output", "consumedOutputs[].outputId:38", "consumedOutputs[].output:output">>
InfoF == <<"name:str", "version:str", "status.isHealthy:bool", "status.isNetworkHealthy:bool", "status.acceptedTangleTime:time", "status.relativeAcceptedTangleTime:time",
           "status.confirmedTangleTime:time", "status.relativeConfirmedTangleTime:time", "status.latestCommitmentId:36", "status.latestFinalizedSlot:u32",
           "status.latestAcceptedBlockSlot:u32", "status.latestConfirmedBlockSlot:u32", "status.pruningEpoch:u32", "protocolParameters[].startEpoch:u32", "protocolParameters[].parameters:params",
           "baseToken.name:str", "baseToken.tickerSymbol:str", "baseToken.unit:str", "baseToken.subunit:str?", "baseToken.decimals:u32">>

Methods == {"Health", "NetworkHealth", "Routes", "Info", "NetworkMetrics", "SubmitBlock", "BlockByBlockID", "BlockMetadataByBlockID", "BlockWithMetadataByBlockID", "BlockIssuance",
  "OutputByID", "OutputMetadataByID", "OutputWithMetadataByID", "TransactionByID", "TransactionIncludedBlock", "TransactionIncludedBlockMetadata", "TransactionMetadata",
  "CommitmentByID", "CommitmentUTXOChangesByID", "CommitmentUTXOChangesFullByID", "CommitmentBySlot", "CommitmentUTXOChangesBySlot", "CommitmentUTXOChangesFullBySlot",
  "Congestion", "Validators", "Validator", "Rewards", "Committee", "PeerByID", "RemovePeerByID", "Peers", "AddPeer", "BlockIssuerInfo"}

Api(m) ==
  CASE m = "Health"         -> E("GET", "/health", "", "", "", "health", <<>>)
    [] m = "NetworkHealth"  -> E("GET", Core \o "/network/health", "", "", "", "health", <<>>)
    [] m = "Routes"         -> GetJ("/api/routes", "", <<"routes[]:str">>)
    [] m = "Info"           -> E("GET", Core \o "/info", "", "", "", "json", InfoF)
    [] m = "NetworkMetrics" -> E("GET", Core \o "/network/metrics", "", "", "", "json", <<"blocksPerSecond:f64", "confirmedBlocksPerSecond:f64", "confirmationRate:f64">>)
    [] m = "SubmitBlock"    -> E("POST", Core \o "/blocks", "", "", RAW, "location", <<"block">>)
    [] m = "BlockByBlockID" -> GetR(Core \o "/blocks/", "", "block")
    [] m = "BlockMetadataByBlockID" -> GetJ(Core \o "/blocks/", "/metadata", BlockMetaF)
    [] m = "BlockWithMetadataByBlockID" -> GetR(Core \o "/blocks/", "/full", "blockmeta")
    [] m = "BlockIssuance"  -> GetJ(Core \o "/blocks/issuance", "", <<"strongParents[]:36", "weakParents[]?:36", "shallowLikeParents[]?:36", "latestParentBlockIssuingTime:time", "latestFinalizedSlot:u32">> \o Under("latestCommitment", CommitmentF))
    [] m = "OutputByID"     -> E("GET", Core \o "/outputs/", "", RAW, "", "output", <<>>)
    [] m = "OutputWithMetadataByID" -> E("GET", Core \o "/outputs/", "/full", RAW, "", "output", <<>>)
    [] m = "OutputMetadataByID" -> GetJ(Core \o "/outputs/", "/metadata", OutputMetaF)
    [] m = "TransactionByID" -> GetR(Core \o "/transactions/", "", "tx")
    [] m = "TransactionIncludedBlock" -> GetR(Core \o "/transactions/", "/included-block", "block")
    [] m = "TransactionIncludedBlockMetadata" -> GetJ(Core \o "/transactions/", "/included-block/metadata", BlockMetaF)
    [] m = "TransactionMetadata" -> GetJ(Core \o "/transactions/", "/metadata", <<"transactionId:36", "transactionState:tstate", "earliestAttachmentSlot:u32", "transactionFailureReason:u8?", "transactionFailureDetails:str?">>)
    [] m = "CommitmentByID" -> GetJ(Core \o "/commitments/", "", CommitmentF)
    [] m = "CommitmentUTXOChangesByID" -> GetJ(Core \o "/commitments/", "/utxo-changes", ChangesF)
    [] m = "CommitmentUTXOChangesFullByID" -> GetJ(Core \o "/commitments/", "/utxo-changes/full", FullChangesF)
    [] m = "CommitmentBySlot" -> GetJ(Core \o "/commitments/by-slot/", "", CommitmentF)
    [] m = "CommitmentUTXOChangesBySlot" -> GetJ(Core \o "/commitments/by-slot/", "/utxo-changes", ChangesF)
    [] m = "CommitmentUTXOChangesFullBySlot" -> GetJ(Core \o "/commitments/by-slot/", "/utxo-changes/full", FullChangesF)
    [] m = "Congestion"     -> GetJ(Core \o "/accounts/", "/congestion", <<"slot:u32", "ready:bool", "referenceManaCost:u64", "blockIssuanceCredits:i64">>)
    [] m = "Validators"     -> GetJ(Core \o "/validators", "", Under("validators[]", ValidatorF) \o <<"pageSize:u32", "cursor:str?">>)
    [] m = "Validator"      -> GetJ(Core \o "/validators/", "", ValidatorF)
    [] m = "Rewards"        -> GetJ(Core \o "/rewards/", "", <<"startEpoch:u32", "endEpoch:u32", "rewards:u64", "latestCommittedEpochPoolRewards:u64">>)
    [] m = "Committee"      -> GetJ(Core \o "/committee", "", Under("committee[]", MemberF) \o <<"totalStake:u64", "totalValidatorStake:u64", "epoch:u32">>)
    [] m = "PeerByID"       -> GetJ(Mgmt \o "/peers/", "", PeerF)
    [] m = "RemovePeerByID" -> E("DELETE", Mgmt \o "/peers/", "", "", "", "none", <<>>)
    [] m = "Peers"          -> GetJ(Mgmt \o "/peers", "", Under("peers[]", PeerF))
    [] m = "AddPeer"        -> E("POST", Mgmt \o "/peers", "", JSON, JSON, "json", PeerF)
    [] m = "BlockIssuerInfo" -> E("GET", Iss \o "/info", "", "", "", "json", <<"blockIssuerAddress:str", "powTargetTrailingZeros:u8">>)

\* arguments that become query parameters, left out where zero means "any"
Silent == {"workScore", "pageSize"}
Query(qa) == {<<qa[j][1], qa[j][2]>> : j \in {x \in DOMAIN qa : ~(qa[x][1] \in Silent /\ qa[x][2] = "0")}}

Ask(m, arg, q, body) == LET a == Api(m) IN [verb |-> a.verb, path |-> a.pre \o arg \o a.post, q |-> q, accept |-> a.accept, ctype |-> a.ctype, body |-> body]
Fetch(path, q) == [verb |-> "GET", path |-> path, q |-> q, accept |-> JSON, ctype |-> "", body |-> ""]

\* ---------------------------------------------------------------- outcomes --
Ok(v)  == [ok |-> 1, err |-> "", val |-> v]
Err(e) == [ok |-> 0, err |-> e, val |-> <<>>]
AnyErr == Err("any")              \* an error, whichever
StatusErr(st) == CASE st = 400 -> "bad request" [] st = 401 -> "unauthorized" [] st = 404 -> "not found" [] st = 500 -> "internal server error"
                   [] st = 501 -> "not implemented" [] st = 503 -> "service unavailable" [] OTHER -> "unknown"
Good(st) == st \in {200, 201}
\* a reply: st: status, b: body.  "good": what was asked for; "more": with a field nobody knows; the rest cannot be read as it
Lost == "hang"                  \* the connection breaks before the body ends
Readable == {"good", "more"}

\* outcomes allowed for one request; v is what the node said
Read(dec, r, v) ==
  IF r.b = "dead" THEN {AnyErr}
  ELSE IF r.st = 204 THEN (IF dec = "health" THEN {Ok(<<"true">>)} ELSE IF dec = "none" THEN {Ok(<<>>)} ELSE IF dec = "location" /\ r.b = "good" THEN {Ok(v)} ELSE {AnyErr})
  ELSE IF ~Good(r.st) THEN
    (IF r.b = Lost THEN {AnyErr} ELSE IF dec = "health" /\ r.st = 503 THEN {Ok(<<"false">>)} ELSE {Err(StatusErr(r.st))})
  ELSE CASE dec = "health" -> {Ok(<<"true">>)}
         [] dec = "none" -> {Ok(<<>>)}
         [] OTHER -> IF r.b \in Readable THEN {Ok(v)} ELSE {AnyErr}

\* ----------------------------------------------------------------- outputs --
\* outputs of a small ledger: transaction, index, content and kind
Outs == {"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9"}
Out(o) == CASE o = "o1" -> <<1, 0, "basicA", "basic">> [] o = "o2" -> <<1, 1, "basicA", "basic">> [] o = "o3" -> <<1, 2, "account", "account">>
            [] o = "o4" -> <<2, 0, "nft", "nft">> [] o = "o5" -> <<2, 1, "basicA", "basic">> [] o = "o6" -> <<2, 2, "foundry", "foundry">> [] o = "o7" -> <<2, 3, "anchor", "anchor">> [] o = "o8" -> <<2, 4, "delegation", "delegation">>
            [] o = "o9" -> <<3, 0, "basicB", "basic">>      \* the only output of its transaction
Content(o) == Out(o)[3]
Kind(o) == Out(o)[4]
\* the reply carries the content of output r.c and the proof of output r.p, altered as r.alt says;
\* the output a content and an unaltered proof belong to ("": none that is known)
Proves(r) == IF r.alt = "" /\ Content(r.c) = Content(r.p) THEN r.p ELSE ""
\* a proof moved to the index of the output asked for proves the same content there
Moved(o, r) == r.alt = "index" /\ Out(r.p)[1] = Out(o)[1] /\ Content(r.c) = Content(r.p) /\ Content(r.c) = Content(o)
OutputRead(o, r) ==
  IF r.b = "output" /\ Good(r.st)
  THEN (IF Proves(r) = o THEN {Ok(<<Content(o)>>)} ELSE IF Moved(o, r) THEN {Ok(<<Content(o)>>), AnyErr} ELSE {AnyErr})
  ELSE Read("raw", r, <<>>)

\* ------------------------------------------------------------------- paging --
PageOk(r) == Good(r.st) /\ r.b = "page"
PageOut(r) == Read("json", r, <<>>)
\* a validators page after another until none is left, at most max of them (-1: no limit)
RECURSIVE ValAll(_, _, _, _, _, _)
ValAll(rs, k, cur, acc, max, asked) ==
  LET q == IF k = 1 THEN {} ELSE {<<"cursor", cur>>}
      asked2 == Append(asked, Fetch(Core \o "/validators", q))
  IN IF k > Len(rs) THEN [asked |-> asked2, more |-> TRUE, out |-> {}]
     ELSE LET r == rs[k] IN
       IF ~PageOk(r) THEN [asked |-> asked2, more |-> FALSE, out |-> PageOut(r)]
       ELSE LET all == acc \o r.items IN
         IF r.cursor = "" THEN [asked |-> asked2, more |-> FALSE, out |-> {Ok(all \o <<"all">>)}]
         ELSE IF max >= 0 /\ k >= max THEN [asked |-> asked2, more |-> FALSE, out |-> {Ok(all \o <<"part">>)}]
         ELSE ValAll(rs, k + 1, r.cursor, all, max, asked2)

QueryRoute(k) == Idx \o (CASE k = "outputs" -> "/outputs" [] k = "basic" -> "/outputs/basic" [] k = "account" -> "/outputs/account" [] k = "anchor" -> "/outputs/anchor"
                      [] k = "foundry" -> "/outputs/foundry" [] k = "nft" -> "/outputs/nft" [] k = "delegation" -> "/outputs/delegation")

\* fetching the outputs of a page one after another; the replies start at rs[k]
RECURSIVE FetchAll(_, _, _, _, _, _)
FetchAll(items, n, rs, k, got, asked) ==
  IF n > Len(items) THEN [asked |-> asked, k |-> k, more |-> FALSE, vals |-> {got}]
  ELSE LET asked2 == Append(asked, Ask("OutputByID", items[n], {}, "")) IN
       IF k > Len(rs) THEN [asked |-> asked2, k |-> k, more |-> TRUE, vals |-> {}]
       ELSE LET x == OutputRead(items[n], rs[k]) y == CHOOSE z \in x : TRUE IN
            IF y.ok = 1 THEN FetchAll(items, n + 1, rs, k + 1, got \o y.val, asked2)
            ELSE [asked |-> asked2, k |-> k + 1, more |-> FALSE, vals |-> {<<"failed", y.err>>}]

\* a result set in the hands of its user: Next and, if fetch, Outputs, until Next says there is no more.
\* Written down: for every Next that succeeded its items, "|", the outputs if fetched, "|"; at the end "end" or the error
RECURSIVE Pages(_, _, _, _, _, _, _)
Pages(kind, params, fetch, rs, k, st, asked) ==
  LET q == params \cup (IF st.first THEN {} ELSE {<<"cursor", st.cursor>>})
      asked2 == Append(asked, Fetch(QueryRoute(kind), q))
  IN IF ~st.first /\ st.cursor = "" THEN [asked |-> asked, more |-> FALSE, out |-> {Ok(st.log \o <<"end">>)}]
     ELSE IF k > Len(rs) THEN [asked |-> asked2, more |-> TRUE, out |-> {}]
     ELSE LET r == rs[k] IN
       IF ~PageOk(r) THEN [asked |-> asked2, more |-> FALSE, out |-> {[x EXCEPT !.val = st.log] : x \in PageOut(r)}]
       ELSE LET last == r.cursor = "" IN
         IF r.items = <<>> /\ last THEN [asked |-> asked2, more |-> FALSE, out |-> {Ok(st.log \o <<"end">>)}]
         ELSE IF ~fetch THEN Pages(kind, params, fetch, rs, k + 1, [first |-> FALSE, cursor |-> r.cursor, log |-> st.log \o r.items \o <<"|">>], asked2)
         ELSE IF "bad" \in {r.items[j] : j \in DOMAIN r.items} THEN [asked |-> asked2, more |-> FALSE, out |-> {[AnyErr EXCEPT !.val = st.log \o r.items \o <<"|">>]}]
         ELSE LET f == FetchAll(r.items, 1, rs, k + 1, <<>>, asked2) IN
              IF f.more THEN [asked |-> f.asked, more |-> TRUE, out |-> {}]
              ELSE LET v == CHOOSE z \in f.vals : TRUE IN
                   IF v # <<>> /\ v[1] = "failed" THEN [asked |-> f.asked, more |-> FALSE, out |-> {[Err(v[2]) EXCEPT !.val = st.log \o r.items \o <<"|">>]}]
                   ELSE Pages(kind, params, fetch, rs, f.k, [first |-> FALSE, cursor |-> r.cursor, log |-> st.log \o r.items \o <<"|">> \o v \o <<"|">>], f.asked)

\* the one output with an identity of a kind
Single(kind, arg, rs) ==
  LET asked == <<Fetch(QueryRoute(kind) \o "/" \o arg, {})>> IN
  IF rs = <<>> THEN [asked |-> asked, more |-> TRUE, out |-> {}]
  ELSE LET r == rs[1] IN
    IF ~PageOk(r) THEN [asked |-> asked, more |-> FALSE, out |-> PageOut(r)]
    ELSE IF r.items = <<>> THEN [asked |-> asked, more |-> FALSE, out |-> {Err("no result")}]
    ELSE IF "bad" \in {r.items[j] : j \in DOMAIN r.items} THEN [asked |-> asked, more |-> FALSE, out |-> {AnyErr}]
    ELSE LET o == r.items[1]  asked2 == Append(asked, Ask("OutputByID", o, {}, "")) IN
      IF Len(rs) < 2 THEN [asked |-> asked2, more |-> TRUE, out |-> {}]
      ELSE [asked |-> asked2, more |-> FALSE, out |-> {IF x.ok = 1 THEN (IF Kind(o) = kind THEN Ok(<<o, Content(o), r.slot>>) ELSE AnyErr) ELSE x : x \in OutputRead(o, rs[2])}]

\* ----------------------------------------------------------------- plugins --
PluginRoute(p) == CASE p = "Management" -> "management/v1" [] p = "Indexer" -> "indexer/v2" [] p = "EventAPI" -> "mqtt/v2" [] p = "BlockIssuer" -> "blockissuer/v1"
Plugin(p, rs) ==
  LET asked == <<Fetch("/api/routes", {})>> IN
  IF rs = <<>> THEN [asked |-> asked, more |-> TRUE, out |-> {}]
  ELSE LET r == rs[1] IN
    [asked |-> asked, more |-> FALSE,
     out |-> IF Good(r.st) /\ r.b = "routes" THEN (IF \E j \in DOMAIN r.items : r.items[j] = PluginRoute(p) THEN {Ok(<<>>)} ELSE {Err(p \o " not available")})
             ELSE Read("json", r, <<>>)]

\* ------------------------------------------------------------ block issuer --
\* the last request carries the payload as built, the commitment told and a nonce good for the current target
Issue(viaBuilder, rs) ==
  LET info == Ask("BlockIssuerInfo", "", {}, "")
      issuance == Ask("BlockIssuance", "", {}, "")
      post == [verb |-> "POST", path |-> Iss \o "/issue", q |-> {}, accept |-> "", ctype |-> RAW, body |-> "payload"]
      sofar == IF viaBuilder THEN <<info, issuance>> ELSE <<info>>
      n == Len(sofar)
  IN IF rs = <<>> THEN [asked |-> <<info>>, more |-> TRUE, out |-> {}]
     ELSE IF ~(Good(rs[1].st) /\ rs[1].b = "issuer") THEN [asked |-> <<info>>, more |-> FALSE, out |-> Read("json", rs[1], <<>>)]
     ELSE IF viaBuilder /\ rs[1].addr # "account" THEN [asked |-> <<info>>, more |-> FALSE, out |-> {AnyErr}]
     ELSE IF Len(rs) < n THEN [asked |-> sofar, more |-> TRUE, out |-> {}]
     ELSE IF viaBuilder /\ ~(Good(rs[2].st) /\ rs[2].b = "issuance") THEN [asked |-> sofar, more |-> FALSE, out |-> Read("json", rs[2], <<>>)]
     ELSE IF Len(rs) < n + 1 THEN [asked |-> Append(sofar, post), more |-> TRUE, out |-> {}]
     ELSE [asked |-> Append(sofar, post), more |-> FALSE, out |-> Read("json", [rs[n + 1] EXCEPT !.b = IF @ = "created" THEN "good" ELSE @], <<"b1">>)]

\* -------------------------------------------------------------------- init ---
\* a client takes its rules from what the node announces: versions with the epoch they start in and their parameters
Prov == INSTANCE Provider WITH Genesis <- 0, SlotsPerEpoch <- 8192
Ann(a) == CASE a = "a0" -> <<3, 0, "default">> [] a = "a9" -> <<3, 9, "default">> [] a = "b0" -> <<3, 0, "short">> [] a = "c0" -> <<3, 0, "big">> [] a = "x0" -> <<4, 0, "default">> [] a = "x9" -> <<4, 9, "default">>
Supported == {3}
RECURSIVE Announce(_, _, _)
Announce(s, items, j) ==
  IF j > Len(items) THEN [s |-> s, ok |-> TRUE]
  ELSE LET a == Ann(items[j])  x == Prov!Step(s, [op |-> "add", v |-> a[1], x |-> a[2], h |-> ""]) IN
       IF a[1] \notin Supported \/ ~x.ok THEN [s |-> s, ok |-> FALSE] ELSE Announce(x.s, items, j + 1)
SlotNo(x) == CASE x = "5" -> 5 [] x = "73728" -> 73728 [] x = "4294967295" -> 2000000000
Start(rs) ==
  LET asked == <<Ask("Info", "", {}, "")>> IN
  IF rs = <<>> THEN [asked |-> asked, more |-> TRUE, out |-> {}]
  ELSE LET r == rs[1] IN
    [asked |-> asked, more |-> FALSE,
     out |-> IF ~(Good(r.st) /\ r.b = "info") THEN Read("json", r, <<>>)
             ELSE LET s0 == Prov!Step(Prov!Empty, [op |-> "commit", v |-> 0, x |-> SlotNo(r.slot), h |-> ""]).s
                      x == Announce(s0, r.items, 1)
                  IN IF ~x.ok \/ x.s.committed = 0 THEN {AnyErr}
                     ELSE {Ok(<<Ann(r.items[CHOOSE j \in DOMAIN r.items : Ann(r.items[j])[1] = x.s.committed])[3]>>)}]

\* ------------------------------------------------------------------- runs ---
\* a call: m, arg, qa, and for the others kind, max, fetch, params
Run(c, rs) ==
  CASE c.op = "call" ->
         LET asked == <<Ask(c.m, c.arg, Query(c.qa), c.body)>> IN
         IF rs = <<>> THEN [asked |-> asked, more |-> TRUE, out |-> {}]
         ELSE [asked |-> asked, more |-> FALSE,
               out |-> IF Api(c.m).dec = "output" THEN OutputRead(c.arg, rs[1]) ELSE Read(Api(c.m).dec, rs[1], <<"said">>)]
    [] c.op = "validators" -> ValAll(rs, 1, "", <<>>, c.max, <<>>)
    [] c.op = "pages" -> Pages(c.kind, {<<c.qa[j][1], c.qa[j][2]>> : j \in DOMAIN c.qa}, c.fetch = 1, rs, 1, [first |-> TRUE, cursor |-> "", log |-> <<>>], <<>>)
    [] c.op = "single" -> Single(c.kind, c.arg, rs)
    [] c.op = "plugin" -> Plugin(c.m, rs)
    [] c.op = "init" -> Start(rs)
    [] c.op = "issue" -> Issue(c.kind = "builder", rs)
=============================================================================
