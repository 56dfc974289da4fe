------------------------------- MODULE Objects ------------------------------
(* Addresses, outputs and transactions as records (the vocabulary of           *)
(* harness/rec.go) and what is a function of one of them: wire size, storage   *)
(* score, work score, owner, chain identity.                                   *)
EXTENDS Protocol

Range(s) == {s[i] : i \in DOMAIN s}

\* ------------------------------------------------------- lookups by type ---
HasK(seq, k) == \E i \in DOMAIN seq : seq[i].k = k
GetK(seq, k) == seq[CHOOSE i \in DOMAIN seq : seq[i].k = k]
HasUC(o, k) == HasK(o.uc, k)
UC(o, k)    == GetK(o.uc, k)
HasFt(o, k) == HasK(o.ft, k)
Ft(o, k)    == GetK(o.ft, k)

UAddr == 0  USdr == 1  UTime == 2  UExp == 3  UState == 4  UGov == 5  UImm == 6
FSender == 0  FIssuer == 1  FMeta == 2  FState == 3  FTag == 4  FToken == 5  FBlock == 6  FStake == 7

\* ------------------------------------------------------------- addresses ---
Underlying(a) == IF a.k = "restr" THEN a.in ELSE a
BmBit(bm, i) == IF (i \div 8) + 1 > Len(bm) THEN FALSE ELSE (bm[(i \div 8) + 1] \div Pow2I(i % 8)) % 2 = 1
\* what an address does not want to receive
Refuses(a, bit) ==
  CASE a.k = "restr" -> ~BmBit(a.bm, bit)
    [] a.k = "imp"   -> bit \notin {0, 1}
    [] OTHER         -> FALSE

\* addresses are the same if everything but the ordering ranks is
RECURSIVE AKey(_)
AKey(a) ==
  CASE a.k = "restr" -> <<"restr", AKey(a.in), a.bm>>
    [] a.k = "multi" -> <<"multi", a.thr, [i \in DOMAIN a.subs |-> <<AKey(a.subs[i].a), a.subs[i].w>>]>>
    [] OTHER -> <<a.k, a.n>>

RECURSIVE SumI(_, _)
SumI(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumI(s, i + 1)
SumInts(s) == SumI(s, 1)
MapSum(s, f(_)) == SumInts([i \in DOMAIN s |-> f(s[i])])

RECURSIVE AddrSize(_)
AddrSize(a) ==
  CASE a.k = "restr" -> 2 + AddrSize(a.in) + Len(a.bm)
    [] a.k = "multi" -> 4 + SumInts([i \in DOMAIN a.subs |-> AddrSize(a.subs[i].a) + 1])
    [] OTHER -> 33

\* ------------------------------------------------------------ wire sizes ---
UCSize(u) ==
  CASE u.k = USdr  -> 1 + AddrSize(u.a) + 8
    [] u.k = UTime -> 5
    [] u.k = UExp  -> 1 + AddrSize(u.a) + 4
    [] OTHER       -> 1 + AddrSize(u.a)
EntSize(e) == 1 + e.kl + 2 + e.vl
MapSize(es) == 1 + MapSum(es, EntSize)
FtSize(f) ==
  CASE f.k \in {FSender, FIssuer} -> 1 + AddrSize(f.a)
    [] f.k \in {FMeta, FState}    -> 1 + MapSize(f.ents)
    [] f.k = FTag   -> 2 + f.len
    [] f.k = FToken -> 1 + 38 + 32
    [] f.k = FBlock -> 1 + 4 + 1 + 33 * Len(f.keys)
    [] f.k = FStake -> 1 + 8 + 8 + 4 + 4
UCsSize(o) == 1 + MapSum(o.uc, UCSize)
FtsSize(s) == 1 + MapSum(s, FtSize)
OutSize(o) ==
  CASE o.t = "basic"   -> 1 + 8 + 8 + UCsSize(o) + FtsSize(o.ft)
    [] o.t = "account" -> 1 + 8 + 8 + 32 + 4 + UCsSize(o) + FtsSize(o.ft) + FtsSize(o.imf)
    [] o.t = "anchor"  -> 1 + 8 + 8 + 32 + 4 + UCsSize(o) + FtsSize(o.ft) + FtsSize(o.imf)
    [] o.t = "nft"     -> 1 + 8 + 8 + 32 + UCsSize(o) + FtsSize(o.ft) + FtsSize(o.imf)
    [] o.t = "foundry" -> 1 + 8 + 4 + 97 + UCsSize(o) + FtsSize(o.ft) + FtsSize(o.imf)
    [] o.t = "deleg"   -> 1 + 8 + 8 + 32 + 33 + 4 + 4 + UCsSize(o)
RECURSIVE UnlSize(_)
UnlSize(u) ==
  CASE u.k = "sig"   -> 1 + 97
    [] u.k = "multi" -> 1 + 1 + SumInts([i \in DOMAIN u.subs |-> UnlSize(u.subs[i])])
    [] u.k = "empty" -> 1
    [] OTHER         -> 3
CtxSize(c) == IF c.k = "cmt" THEN 37 ELSE IF c.k = "bic" THEN 33 ELSE 3
TxSize(t, nin) ==
  8 + 4 + (2 + MapSum(t.ctx, CtxSize)) + (2 + nin * 39) + (2 + 40 * Len(t.allot)) + (1 + Len(t.caps))
  + (IF t.ptag < 0 THEN 4 ELSE 4 + 1 + 1 + t.ptag + 4 + t.pdata)
  + (2 + MapSum(t.outs, OutSize))
\* a signed transaction: its type, the transaction, the unlocks
SignedSize(r) == 1 + TxSize(r.tx, Len(r.ins)) + 2 + MapSum(r.unl, UnlSize)

\* --------------------------------------------------------- storage score ---
\* the offset every output pays, for its id and the block that created it
OutputOffset(pp) == pp.soutput + pp.sdata * (38 + 36 + 4)
\* an implicit account is charged what the account it turns into will need
ImplicitOffset(pp) == pp.sdata * ((1+8+8+32+4 + (1 + 34) + (1 + 1+4+1+33) + 1) - (1+8+8 + (1 + 34) + 1)) + pp.skey
AddrScore(pp, a) == IF a.k = "imp" THEN ImplicitOffset(pp) ELSE 0
UCScore(pp, u) == IF u.k = UTime THEN 0 ELSE AddrScore(pp, u.a)
FtScore(pp, f) ==
  CASE f.k \in {FSender, FIssuer} -> AddrScore(pp, f.a)
    [] f.k = FBlock -> pp.skey * Len(f.keys)
    [] f.k = FStake -> pp.sstake
    [] OTHER -> 0
OutScore(pp, o) ==
  LET us(u) == UCScore(pp, u)
      fs(f) == FtScore(pp, f)
  IN OutputOffset(pp) + pp.sdata * OutSize(o) + MapSum(o.uc, us) + MapSum(o.ft, fs) + MapSum(o.imf, fs)
     + (IF o.t = "deleg" THEN pp.sdeleg ELSE 0)
MinDeposit(pp, o) == Mul(pp.scost, FromInt(OutScore(pp, o)))
\* the deposit a plain output to an address needs
PlainOut(a) == [t |-> "basic", amt |-> Zero, mana |-> Zero, id |-> 0, uc |-> <<[k |-> UAddr, a |-> a]>>, ft |-> <<>>, imf |-> <<>>]

\* ------------------------------------------------------------ work score ---
\* how often each part with a cost occurs in a transaction; work is the sum of the costs
CountFt(o, k) == Cardinality({x \in DOMAIN o.ft : o.ft[x].k = k})
RECURSIVE UnlSigs(_)
UnlSigs(u) ==
  CASE u.k = "sig"   -> 1
    [] u.k = "multi" -> SumInts([i \in DOMAIN u.subs |-> UnlSigs(u.subs[i])])
    [] OTHER -> 0
TxParts(r) ==
  LET outs == r.tx.outs  count(k) == SumInts([i \in DOMAIN outs |-> CountFt(outs[i], k)]) IN
  [data |-> SignedSize(r), block |-> 1, input |-> Len(r.ins), ctx |-> Len(r.tx.ctx), output |-> Len(outs),
   nt |-> count(FToken) + Cardinality({i \in DOMAIN outs : outs[i].t = "foundry"}), stake |-> count(FStake), bi |-> count(FBlock),
   allot |-> Len(r.tx.allot), sig |-> SumInts([i \in DOMAIN r.unl |-> UnlSigs(r.unl[i])])]
PartNames == <<"data", "block", "input", "ctx", "output", "nt", "stake", "bi", "allot", "sig">>
\* w: cost of each part, in the order of PartNames
WorkOf(w, parts) == Sum([j \in DOMAIN PartNames |-> MulSmall(w[j], parts[PartNames[j]])])
Weights(pp) == <<FromInt(pp.wdata), FromInt(pp.wblock), FromInt(pp.winput), FromInt(pp.wctx), FromInt(pp.woutput),
                 FromInt(pp.wnt), FromInt(pp.wstake), FromInt(pp.wbi), FromInt(pp.wallot), FromInt(pp.wsig)>>
SignedWork(pp, r) == WorkOf(Weights(pp), TxParts(r))

\* ----------------------------------------------------------------- chains ---
ChainTypes == {"account", "anchor", "nft", "deleg"}
IsImplicit(o) == o.t = "basic" /\ HasUC(o, UAddr) /\ UC(o, UAddr).a.k = "imp"
FndKey(o) == <<"fnd", UC(o, UImm).a.n, o.sn, 0>>
\* the address a chain output is known under
ChainAddrKind(t) == CASE t = "account" -> "acc" [] t = "anchor" -> "anc" [] t = "nft" -> "nft" [] OTHER -> "none"
=============================================================================
