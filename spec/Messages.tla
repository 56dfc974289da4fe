------------------------------ MODULE Messages ------------------------------
(* The messages of the node API: their fields, and their byte and JSON forms.  *)
(* Values: numbers are BigNats, texts and byte strings sequences of bytes,      *)
(* times nanoseconds, lists sequences, optional messages sequences of at most   *)
(* one.  Parts specified elsewhere (blocks, outputs, proofs, commitments,       *)
(* parameters) are given with both of their forms: [b |-> bytes, j |-> JSON].   *)
(* JSON: <<"s", bytes>>, <<"n", number>>, <<"b", 0..1>>, <<"a", list>>,         *)
(* <<"o", set of <<key, JSON>> >>.                                              *)
EXTENDS BigNat, FiniteSets, TLC

T(k, w) == [k |-> k, w |-> w, t |-> "", e |-> <<>>]
U8 == T("num", 1)  U16 == T("num", 2)  U32 == T("num", 4)  U64 == T("big", 8)  I64 == T("int", 8)
Bool == T("bool", 1)  Time == T("time", 8)  Float == T("float", 8)
Str(w) == T("str", w)  Id(w) == T("bytes", w)  Raw == T("raw", 0)
Enum(t) == [T("enum", 1) EXCEPT !.t = t]
List(w, e) == [T("list", w) EXCEPT !.e = <<e>>]
Msg(t) == [T("msg", 0) EXCEPT !.t = t]
Opt(t) == [T("opt", 4) EXCEPT !.t = t]

F(n, j, t) == [n |-> n, j |-> j, t |-> t, omit |-> FALSE]
O(n, j, t) == [n |-> n, j |-> j, t |-> t, omit |-> TRUE]

\* unknown, pending, accepted, confirmed, finalized, dropped, orphaned
BlockStates == <<<<117, 110, 107, 110, 111, 119, 110>>, <<112, 101, 110, 100, 105, 110, 103>>, <<97, 99, 99, 101, 112, 116, 101, 100>>, <<99, 111, 110, 102, 105, 114, 109, 101, 100>>, <<102, 105, 110, 97, 108, 105, 122, 101, 100>>, <<100, 114, 111, 112, 112, 101, 100>>, <<111, 114, 112, 104, 97, 110, 101, 100>>>>
\* unknown, pending, accepted, committed, finalized, failed
TxStates == <<<<117, 110, 107, 110, 111, 119, 110>>, <<112, 101, 110, 100, 105, 110, 103>>, <<97, 99, 99, 101, 112, 116, 101, 100>>, <<99, 111, 109, 109, 105, 116, 116, 101, 100>>, <<102, 105, 110, 97, 108, 105, 122, 101, 100>>, <<102, 97, 105, 108, 101, 100>>>>
States == [BlockState |-> BlockStates, TransactionState |-> TxStates]

Types == [
  InfoResponse |-> <<F("Name", "name", Str(1)), F("Version", "version", Str(1)), F("Status", "status", Msg("InfoResNodeStatus")),
                     F("ProtocolParameters", "protocolParameters", List(1, Msg("InfoResProtocolParameters"))), F("BaseToken", "baseToken", Msg("InfoResBaseToken"))>>,
  InfoResProtocolParameters |-> <<F("StartEpoch", "startEpoch", U32), F("Parameters", "parameters", Raw)>>,
  InfoResNodeStatus |-> <<F("IsHealthy", "isHealthy", Bool), F("IsNetworkHealthy", "isNetworkHealthy", Bool), F("AcceptedTangleTime", "acceptedTangleTime", Time),
                          F("RelativeAcceptedTangleTime", "relativeAcceptedTangleTime", Time), F("ConfirmedTangleTime", "confirmedTangleTime", Time),
                          F("RelativeConfirmedTangleTime", "relativeConfirmedTangleTime", Time), F("LatestCommitmentID", "latestCommitmentId", Id(36)),
                          F("LatestFinalizedSlot", "latestFinalizedSlot", U32), F("LatestAcceptedBlockSlot", "latestAcceptedBlockSlot", U32),
                          F("LatestConfirmedBlockSlot", "latestConfirmedBlockSlot", U32), F("PruningEpoch", "pruningEpoch", U32)>>,
  InfoResBaseToken |-> <<F("Name", "name", Str(1)), F("TickerSymbol", "tickerSymbol", Str(1)), F("Unit", "unit", Str(1)), O("Subunit", "subunit", Str(1)), F("Decimals", "decimals", U32)>>,
  NetworkHealthResponse |-> <<F("IsNetworkHealthy", "isNetworkHealthy", Bool)>>,
  NetworkMetricsResponse |-> <<F("BlocksPerSecond", "blocksPerSecond", Float), F("ConfirmedBlocksPerSecond", "confirmedBlocksPerSecond", Float), F("ConfirmationRate", "confirmationRate", Float)>>,
  IssuanceBlockHeaderResponse |-> <<F("StrongParents", "strongParents", List(1, Id(36))), O("WeakParents", "weakParents", List(1, Id(36))), O("ShallowLikeParents", "shallowLikeParents", List(1, Id(36))),
                                    F("LatestParentBlockIssuingTime", "latestParentBlockIssuingTime", Time), F("LatestFinalizedSlot", "latestFinalizedSlot", U32), F("LatestCommitment", "latestCommitment", Raw)>>,
  BlockCreatedResponse |-> <<F("BlockID", "blockId", Id(36))>>,
  BlockMetadataResponse |-> <<F("BlockID", "blockId", Id(36)), F("BlockState", "blockState", Enum("BlockState"))>>,
  BlockWithMetadataResponse |-> <<F("Block", "block", Raw), F("Metadata", "metadata", Msg("BlockMetadataResponse"))>>,
  TransactionMetadataResponse |-> <<F("TransactionID", "transactionId", Id(36)), F("TransactionState", "transactionState", Enum("TransactionState")), F("EarliestAttachmentSlot", "earliestAttachmentSlot", U32),
                                    O("TransactionFailureReason", "transactionFailureReason", U8), O("TransactionFailureDetails", "transactionFailureDetails", Str(2))>>,
  OutputResponse |-> <<F("Output", "output", Raw), F("OutputIDProof", "outputIdProof", Raw)>>,
  OutputWithID |-> <<F("OutputID", "outputId", Id(38)), F("Output", "output", Raw)>>,
  OutputInclusionMetadata |-> <<F("Slot", "slot", U32), F("TransactionID", "transactionId", Id(36)), O("CommitmentID", "commitmentId", Id(36))>>,
  OutputConsumptionMetadata |-> <<F("Slot", "slot", U32), F("TransactionID", "transactionId", Id(36)), O("CommitmentID", "commitmentId", Id(36))>>,
  OutputMetadata |-> <<F("OutputID", "outputId", Id(38)), F("BlockID", "blockId", Id(36)), F("Included", "included", Msg("OutputInclusionMetadata")), O("Spent", "spent", Opt("OutputConsumptionMetadata")),
                       F("LatestCommitmentID", "latestCommitmentId", Id(36))>>,
  OutputWithMetadataResponse |-> <<F("Output", "output", Raw), F("OutputIDProof", "outputIdProof", Raw), F("Metadata", "metadata", Msg("OutputMetadata"))>>,
  UTXOChangesResponse |-> <<F("CommitmentID", "commitmentId", Id(36)), F("CreatedOutputs", "createdOutputs", List(4, Id(38))), F("ConsumedOutputs", "consumedOutputs", List(4, Id(38)))>>,
  UTXOChangesFullResponse |-> <<F("CommitmentID", "commitmentId", Id(36)), F("CreatedOutputs", "createdOutputs", List(4, Msg("OutputWithID"))), F("ConsumedOutputs", "consumedOutputs", List(4, Msg("OutputWithID")))>>,
  CongestionResponse |-> <<F("Slot", "slot", U32), F("Ready", "ready", Bool), F("ReferenceManaCost", "referenceManaCost", U64), F("BlockIssuanceCredits", "blockIssuanceCredits", I64)>>,
  ValidatorResponse |-> <<F("AddressBech32", "address", Str(1)), F("StakingEndEpoch", "stakingEndEpoch", U32), F("PoolStake", "poolStake", U64), F("ValidatorStake", "validatorStake", U64), F("FixedCost", "fixedCost", U64),
                          F("Active", "active", Bool), F("LatestSupportedProtocolVersion", "latestSupportedProtocolVersion", U8), F("LatestSupportedProtocolHash", "latestSupportedProtocolHash", Id(32))>>,
  ValidatorsResponse |-> <<F("Validators", "validators", List(2, Msg("ValidatorResponse"))), F("PageSize", "pageSize", U32), O("Cursor", "cursor", Str(1))>>,
  ManaRewardsResponse |-> <<F("StartEpoch", "startEpoch", U32), F("EndEpoch", "endEpoch", U32), F("Rewards", "rewards", U64), F("LatestCommittedEpochPoolRewards", "latestCommittedEpochPoolRewards", U64)>>,
  CommitteeMemberResponse |-> <<F("AddressBech32", "address", Str(1)), F("PoolStake", "poolStake", U64), F("ValidatorStake", "validatorStake", U64), F("FixedCost", "fixedCost", U64)>>,
  CommitteeResponse |-> <<F("Committee", "committee", List(1, Msg("CommitteeMemberResponse"))), F("TotalStake", "totalStake", U64), F("TotalValidatorStake", "totalValidatorStake", U64), F("Epoch", "epoch", U32)>>,
  BlockIssuerInfo |-> <<F("BlockIssuerAddress", "blockIssuerAddress", Str(1)), F("PowTargetTrailingZeros", "powTargetTrailingZeros", U8)>>,
  AddPeerRequest |-> <<F("MultiAddress", "multiAddress", Str(1)), O("Alias", "alias", Str(1))>>,
  PeerInfo |-> <<F("ID", "id", Str(1)), F("MultiAddresses", "multiAddresses", List(1, Str(1))), O("Alias", "alias", Str(1)), F("Relation", "relation", Str(1)), F("Connected", "connected", Bool), F("GossipMetrics", "gossipMetrics", Msg("PeerGossipMetrics"))>>,
  PeerGossipMetrics |-> <<F("PacketsReceived", "packetsReceived", U32), F("PacketsSent", "packetsSent", U32)>>,
  PeersResponse |-> <<F("Peers", "peers", List(1, Msg("PeerInfo")))>>,
  PruneDatabaseRequest |-> <<O("Epoch", "epoch", U32), O("Depth", "depth", U32), O("TargetDatabaseSize", "targetDatabaseSize", Str(1))>>,
  PruneDatabaseResponse |-> <<F("Epoch", "epoch", U32)>>,
  HealthResponse |-> <<F("IsHealthy", "isHealthy", Bool)>>,
  RoutesResponse |-> <<F("Routes", "routes", List(1, Str(1)))>>,
  IndexerResponse |-> <<F("CommittedSlot", "committedSlot", U32), F("PageSize", "pageSize", U32), F("Items", "items", List(2, Str(1))), O("Cursor", "cursor", Str(1))>> ]

\* ------------------------------------------------------------------- bytes ---
RECURSIVE LE(_, _)
LE(x, k) == IF k = 0 THEN <<>> ELSE <<ModSmall(x, 256)>> \o LE(DivSmall(x, 256), k - 1)
Two64 == Pow2(64)
RECURSIVE Enc(_, _)
RECURSIVE EncList(_, _, _)
RECURSIVE EncFields(_, _, _)
EncList(e, v, j) == IF j > Len(v) THEN <<>> ELSE Enc(e, v[j]) \o EncList(e, v, j + 1)
EncFields(fs, v, j) == IF j > Len(fs) THEN <<>> ELSE Enc(fs[j].t, v[fs[j].n]) \o EncFields(fs, v, j + 1)
Enc(t, v) ==
  CASE t.k \in {"num", "big", "time"} -> LE(v, t.w)
    [] t.k = "int" -> LE(IF v.neg = 1 THEN Sub(Two64, v.abs) ELSE v.abs, 8)
    [] t.k = "enum" -> <<v>>
    [] t.k = "bool" -> <<v>>
    [] t.k = "float" -> v.b
    [] t.k = "str" -> LE(FromInt(Len(v)), t.w) \o v
    [] t.k = "bytes" -> v
    [] t.k = "raw" -> v.b
    [] t.k = "list" -> LE(FromInt(Len(v)), t.w) \o EncList(t.e[1], v, 1)
    [] t.k = "msg" -> EncFields(Types[t.t], v, 1)
    [] t.k = "opt" -> IF v = <<>> THEN <<0, 0, 0, 0>> ELSE LET b == EncFields(Types[t.t], v[1], 1) IN LE(FromInt(Len(b)), 4) \o b

\* -------------------------------------------------------------------- JSON ---
RECURSIVE Dec10(_)
Dec10(x) == IF Lt(x, FromInt(10)) THEN <<48 + ModSmall(x, 10)>> ELSE Dec10(DivSmall(x, 10)) \o <<48 + ModSmall(x, 10)>>
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexOf(_, _)
HexOf(b, j) == IF j > Len(b) THEN <<>> ELSE <<HexDigit(b[j] \div 16), HexDigit(b[j] % 16)>> \o HexOf(b, j + 1)
Empty(t, v) ==
  CASE t.k \in {"num", "big", "time"} -> v = Zero
    [] t.k = "str" -> v = <<>>
    [] t.k = "list" -> v = <<>>
    [] t.k = "opt" -> v = <<>>
    [] t.k = "bytes" -> \A j \in DOMAIN v : v[j] = 0
    [] OTHER -> FALSE
RECURSIVE Js(_, _)
\* what is empty and may be omitted is
JsFields(fs, v) == <<"o", {<<fs[j].j, Js(fs[j].t, v[fs[j].n])>> : j \in {j \in DOMAIN fs : ~(fs[j].omit /\ Empty(fs[j].t, v[fs[j].n]))}}>>
Js(t, v) ==
  CASE t.k = "num" -> <<"n", v>>
    [] t.k \in {"big", "time"} -> <<"s", Dec10(v)>>
    [] t.k = "int" -> <<"s", (IF v.neg = 1 THEN <<45>> ELSE <<>>) \o Dec10(v.abs)>>
    [] t.k = "enum" -> <<"s", States[t.t][v + 1]>>
    [] t.k = "bool" -> <<"b", v>>
    [] t.k = "float" -> <<"s", v.s>>
    [] t.k = "str" -> <<"s", v>>
    [] t.k = "bytes" -> <<"s", <<48, 120>> \o HexOf(v, 1)>>
    [] t.k = "raw" -> v.j
    [] t.k = "list" -> <<"a", SubSeq([j \in DOMAIN v |-> Js(t.e[1], v[j])], 1, Len(v))>>
    [] t.k = "msg" -> JsFields(Types[t.t], v)
    [] t.k = "opt" -> JsFields(Types[t.t], v[1])

\* ---------------------------------------------------------------- and back ---
\* decoders give <<value, rest>>, or <<>> on failure; parts specified elsewhere take one byte here
RECURSIVE FromLE(_, _)
FromLE(b, k) == IF k = 0 THEN Zero ELSE Add(FromInt(b[1]), MulSmall(FromLE(Tail(b), k - 1), 256))
Cut(b, n) == SubSeq(b, n + 1, Len(b))
RECURSIVE Dec(_, _)
RECURSIVE DecList(_, _, _)
RECURSIVE DecFields(_, _, _)
DecList(e, n, b) == IF n = 0 THEN <<<<>>, b>> ELSE LET h == Dec(e, b) IN IF h = <<>> THEN <<>> ELSE LET r == DecList(e, n - 1, h[2]) IN IF r = <<>> THEN <<>> ELSE <<<<h[1]>> \o r[1], r[2]>>
DecFields(fs, j, b) == IF j > Len(fs) THEN <<<<>>, b>> ELSE LET h == Dec(fs[j].t, b) IN IF h = <<>> THEN <<>> ELSE LET r == DecFields(fs, j + 1, h[2]) IN IF r = <<>> THEN <<>> ELSE <<(fs[j].n :> h[1]) @@ r[1], r[2]>>
Dec(t, b) ==
  CASE t.k \in {"num", "big", "time"} -> IF Len(b) < t.w THEN <<>> ELSE <<FromLE(b, t.w), Cut(b, t.w)>>
    [] t.k = "int" -> IF Len(b) < 8 THEN <<>> ELSE LET x == FromLE(b, 8) IN <<IF Lt(x, Pow2(63)) THEN [neg |-> 0, abs |-> x] ELSE [neg |-> 1, abs |-> Sub(Two64, x)], Cut(b, 8)>>
    [] t.k \in {"enum", "bool"} -> IF Len(b) < 1 THEN <<>> ELSE <<b[1], Cut(b, 1)>>
    [] t.k = "bytes" -> IF Len(b) < t.w THEN <<>> ELSE <<SubSeq(b, 1, t.w), Cut(b, t.w)>>
    [] t.k = "float" -> IF Len(b) < 8 THEN <<>> ELSE <<[b |-> SubSeq(b, 1, 8), s |-> <<>>], Cut(b, 8)>>
    [] t.k = "raw" -> IF Len(b) < 1 THEN <<>> ELSE <<[b |-> SubSeq(b, 1, 1), j |-> <<>>], Cut(b, 1)>>
    [] t.k = "str" -> IF Len(b) < t.w THEN <<>> ELSE LET n == ToInt(FromLE(b, t.w)) r == Cut(b, t.w) IN IF Len(r) < n THEN <<>> ELSE <<SubSeq(r, 1, n), Cut(r, n)>>
    [] t.k = "list" -> IF Len(b) < t.w THEN <<>> ELSE DecList(t.e[1], ToInt(FromLE(b, t.w)), Cut(b, t.w))
    [] t.k = "msg" -> DecFields(Types[t.t], 1, b)
    [] t.k = "opt" -> IF Len(b) < 4 THEN <<>> ELSE LET n == ToInt(FromLE(b, 4)) r == Cut(b, 4) IN
                      IF n = 0 THEN <<<<>>, r>> ELSE IF Len(r) < n THEN <<>> ELSE LET h == DecFields(Types[t.t], 1, SubSeq(r, 1, n)) IN IF h = <<>> \/ h[2] # <<>> THEN <<>> ELSE <<<<h[1]>>, Cut(r, n)>>
=============================================================================
