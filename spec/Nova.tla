-------------------------------- MODULE Nova --------------------------------
(* What a transaction must satisfy together with the outputs it consumes: the  *)
(* rules of the ledger.  VmFailed(r) is the set of rules a record violates.    *)
EXTENDS Unlocks

\* capabilities of a transaction
CBurnNT == 0  CBurnMana == 1  CAccount == 2  CAnchor == 3  CFoundry == 4  CNft == 5
Can(r, bit) == BmBit(r.tx.caps, bit)

FtEq(f, g) ==
  f.k = g.k /\
  CASE f.k \in {FSender, FIssuer} -> AKey(f.a) = AKey(g.a)
    [] f.k \in {FMeta, FState}    -> Range(f.ents) = Range(g.ents)
    [] OTHER -> f = g
FtsEq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : FtEq(s[i], t[i])
SameFt(o, p, k) == HasFt(o, k) = HasFt(p, k) /\ (HasFt(o, k) => FtEq(Ft(o, k), Ft(p, k)))

Outs(r) == r.tx.outs
NewFoundry(r, j) == Outs(r)[j].t = "foundry" /\ InWith(r, FndKey(Outs(r)[j])) = {}

\* ------------------------------------------------------------- base tokens ---
BaseFailed(r, st) ==
  LET owing == {i \in DOMAIN r.ins : HasUC(r.ins[i].out, USdr)
                                     /\ ~OpenedBy(st, i - 1, AKey(UC(r.ins[i].out, USdr).a))}
      retKey(i) == AKey(UC(r.ins[i].out, USdr).a)
      plain == {j \in DOMAIN Outs(r) : Outs(r)[j].t = "basic" /\ Len(Outs(r)[j].ft) = 0 /\ Len(Outs(r)[j].uc) = 1}
      owed(k) == Sum([i \in DOMAIN r.ins |-> IF i \in owing /\ retKey(i) = k THEN UC(r.ins[i].out, USdr).amt ELSE Zero])
      paid(k) == Sum([j \in DOMAIN Outs(r) |-> IF j \in plain /\ AKey(UC(Outs(r)[j], UAddr).a) = k THEN Outs(r)[j].amt ELSE Zero])
  IN UNION {
    If(Sum([i \in DOMAIN r.ins |-> r.ins[i].out.amt]) # Sum([j \in DOMAIN Outs(r) |-> Outs(r)[j].amt]), "V01:base tokens not balanced"),
    If(\E i \in owing : Lt(paid(retKey(i)), owed(retKey(i))), "V01:storage deposit not returned") }

\* --------------------------------------------------------------- timelocks ---
TimelockFailed(r) ==
  LET locked(o) == HasUC(o, UTime) /\ (~HasCmt(r) \/ FutureBounded(PP(r.p), r.cmt) < UC(o, UTime).slot)
  IN If(\E i \in DOMAIN r.ins : locked(r.ins[i].out), "V05:timelock not expired")

\* ---------------------------------------------------------- sender, issuer ---
SenderFailed(r, st) ==
  If(\E j \in DOMAIN Outs(r) : HasFt(Outs(r)[j], FSender) /\ ~Opened(st, AKey(Underlying(Ft(Outs(r)[j], FSender).a))), "V13:sender not unlocked")
IssuerOK(o, st) == ~HasK(o.imf, FIssuer) \/ Opened(st, AKey(Underlying(GetK(o.imf, FIssuer).a)))

\* ----------------------------------------------------------- native tokens ---
TokOf(o) == IF HasFt(o, FToken) THEN Ft(o, FToken).amt ELSE Zero
TokKey(o) == LET f == Ft(o, FToken) IN <<"fnd", f.id.acc, f.id.sn, f.id.sch>>
InSum(r, key)  == Sum([i \in DOMAIN r.ins |-> LET o == r.ins[i].out IN IF HasFt(o, FToken) /\ TokKey(o) = key THEN TokOf(o) ELSE Zero])
OutSum(r, key) == Sum([j \in DOMAIN Outs(r) |-> LET o == Outs(r)[j] IN IF HasFt(o, FToken) /\ TokKey(o) = key THEN TokOf(o) ELSE Zero])
TokensIn(r)  == {TokKey(r.ins[i].out) : i \in {x \in DOMAIN r.ins : HasFt(r.ins[x].out, FToken)}}
TokensOut(r) == {TokKey(Outs(r)[j]) : j \in {x \in DOMAIN Outs(r) : HasFt(Outs(r)[x], FToken)}}

TokensFailed(r) ==
  LET ts == TokensIn(r) \cup TokensOut(r)
      loose == {t \in ts : OutWith(r, t) = {}}
  IN UNION {
    If(\E t \in ts : Lt(MaxU256, InSum(r, t)) \/ Lt(MaxU256, OutSum(r, t)), "V02:token sum overflow"),
    If(\E t \in loose : Lt(InSum(r, t), OutSum(r, t)), "V02:tokens from nowhere"),
    If(~Can(r, CBurnNT) /\ \E t \in loose : Lt(OutSum(r, t), InSum(r, t)), "V02,V12:tokens burned without capability") }

\* -------------------------------------------------------------------- mana ---
Late(r) == \E i \in DOMAIN r.ins : r.ins[i].slot > r.tx.slot
Stored(r, i) == LET pp == PP(r.p) IN Decay(pp, r.ins[i].out.mana, EpochOf(pp, r.tx.slot) - EpochOf(pp, r.ins[i].slot))
Potential(r, i) ==
  LET pp == PP(r.p)  o == r.ins[i].out  m == MinDeposit(pp, o)
  IN IF Lt(o.amt, m) THEN Zero ELSE GenerateAndDecay(pp, Sub(o.amt, m), r.ins[i].slot, r.tx.slot)
ManaIn(r)  == Add(Sum([i \in DOMAIN r.ins |-> Add(Stored(r, i), Potential(r, i))]), Sum([k \in DOMAIN r.rew |-> r.rew[k].mana]))
ManaOut(r) == Add(Sum([j \in DOMAIN Outs(r) |-> Outs(r)[j].mana]), Sum([k \in DOMAIN r.tx.allot |-> r.tx.allot[k].mana]))
ManaFailed(r, in, out) ==
  IF Late(r) THEN {"V03:input created after the transaction"}
  ELSE UNION {
    If(Lt(MaxU64, in) \/ Lt(MaxU64, out), "V03:mana overflow"),
    If(Lt(in, out), "V03:mana from nowhere"),
    If(Lt(out, in) /\ ~Can(r, CBurnMana), "V03,V12:mana burned without capability") }

\* ----------------------------------------------------------------- account ---
Claims(r, i) == \E k \in DOMAIN r.rew : r.rew[k].i = i
HasBic(r, acc) == \E k \in DOMAIN r.bic : r.bic[k].acc = acc
BicOK(r, acc) == HasBic(r, acc) /\ \A k \in DOMAIN r.bic : r.bic[k].acc = acc => r.bic[k].v >= 0

StakeStartOK(r, f) ==
  LET pp == PP(r.p)  e == EpochOf(pp, PastBounded(pp, r.cmt)) IN f.start = e /\ f.end >= e + pp.unbond
StakeRunning(r, f) == LET pp == PP(r.p) IN EpochOf(pp, FutureBounded(pp, r.cmt)) <= f.end

\* rules for an account that did not exist before (also: implicit account turned into one)
AccountNewFailed(r, st, o) ==
  IF ~HasCmt(r) /\ (HasFt(o, FBlock) \/ HasFt(o, FStake)) THEN {"V08:commitment missing"}
  ELSE UNION {
    If(HasFt(o, FBlock) /\ Ft(o, FBlock).exp < PastBounded(PP(r.p), r.cmt), "V08:issuer expires too early"),
    If(HasFt(o, FStake) /\ ~StakeStartOK(r, Ft(o, FStake)), "V09:staking period"),
    If(~IssuerOK(o, st), "V13:issuer not unlocked") }

\* mana of a block issuer account stays with the account
ManaLockFailed(r, i, o, in, out) ==
  IF Late(r) THEN {}
  ELSE LET pp == PP(r.p)
           minLock == PastBounded(pp, r.cmt) + pp.maxca
           allot == Sum([k \in DOMAIN r.tx.allot |-> IF r.tx.allot[k].acc = o.id THEN r.tx.allot[k].mana ELSE Zero])
           locked == Sum([j \in DOMAIN Outs(r) |-> LET p == Outs(r)[j] IN
                        IF HasUC(p, UTime) /\ UC(p, UTime).slot > minLock /\ HasUC(p, UAddr) /\ UC(p, UAddr).a = [k |-> "acc", n |-> o.id]
                        THEN p.mana ELSE Zero])
           others == Sub(in, Add(Stored(r, i), Potential(r, i)))
           spent  == Sub(out, Add(o.mana, Add(allot, locked)))
       IN If(Lt(others, spent), "V08:mana moved off the account")

BlockIssuerFailed(r, i, has, exp, o, in, out) ==
  IF ~has /\ ~HasFt(o, FBlock) THEN {}
  ELSE IF ~HasCmt(r) THEN {"V08:commitment missing"}
  ELSE LET past == PastBounded(PP(r.p), r.cmt)  active == has /\ exp >= r.cmt IN UNION {
    If(active /\ ~HasFt(o, FBlock), "V08:active issuer removed"),
    IF ~HasFt(o, FBlock) THEN {} ELSE
      If(~(active /\ Ft(o, FBlock).exp = exp) /\ Ft(o, FBlock).exp < past, "V08:issuer expires too early"),
    ManaLockFailed(r, i, o, in, out) }

StakeFailed(r, i, c, o) ==
  LET claims == Claims(r, i)
      has == HasFt(c, FStake)  next == HasFt(o, FStake)
      f == Ft(c, FStake)  g == Ft(o, FStake)
      rewards(removing) == If(claims /\ ~removing, "V09:rewards claimed without removing the feature")
                           \cup If(~claims /\ removing, "V09:feature removed without claiming")
  IN IF has THEN
       IF ~HasCmt(r) THEN {"V09:commitment missing"}
       ELSE IF StakeRunning(r, f) THEN
         IF ~next THEN {"V09:active staking removed"} ELSE UNION {
           If(f.amt # g.amt \/ f.cost # g.cost \/ f.start # g.start, "V09:active staking modified"),
           If(f.end # g.end /\ g.end < EpochOf(PP(r.p), PastBounded(PP(r.p), r.cmt)) + PP(r.p).unbond, "V09:staking ends too early"),
           rewards(FALSE) }
       ELSE IF ~next THEN rewards(TRUE)
       ELSE IF f # g THEN If(~StakeStartOK(r, g), "V09:staking period") \cup rewards(TRUE)
       ELSE rewards(FALSE)
     ELSE (IF next THEN IF HasCmt(r) THEN If(~StakeStartOK(r, g), "V09:staking period") ELSE {"V09:commitment missing"} ELSE {}) \cup rewards(FALSE)

FoundryCounterFailed(r, c, o) ==
  LET new == Cardinality({j \in DOMAIN Outs(r) : NewFoundry(r, j) /\ UC(Outs(r)[j], UImm).a.n = o.id})
  IN If(o.fc < c.fc \/ (o.fc > c.fc /\ o.fc - c.fc # new), "V07:foundry counter")

AccountChangeFailed(r, i, c, o, in, out) ==
  UNION {
    If(~FtsEq(c.imf, o.imf), "V06:immutable features changed"),
    If(HasFt(c, FBlock) /\ ~BicOK(r, o.id), "V08:block issuance credit"),
    StakeFailed(r, i, c, o),
    FoundryCounterFailed(r, c, o),
    BlockIssuerFailed(r, i, HasFt(c, FBlock), IF HasFt(c, FBlock) THEN Ft(c, FBlock).exp ELSE 0, o, in, out) }

AccountDestroyFailed(r, i, c) ==
  LET acc == InChain(r.ins[i])[2] IN
  UNION {
    If(~Can(r, CAccount), "V06,V12:account destroyed without capability"),
    IF ~HasFt(c, FBlock) THEN {}
      ELSE IF ~HasCmt(r) THEN {"V08:commitment missing"}
      ELSE If(Ft(c, FBlock).exp >= r.cmt, "V08:active issuer destroyed") \cup If(~BicOK(r, acc), "V08:block issuance credit"),
    IF ~HasFt(c, FStake) THEN If(Claims(r, i), "V09:rewards claimed without removing the feature")
      ELSE IF ~HasCmt(r) THEN {"V09:commitment missing"}
      ELSE If(StakeRunning(r, Ft(c, FStake)), "V09:active staking removed")
           \cup If(~Claims(r, i), "V09:feature removed without claiming") }

\* an implicit account becomes an account with a block issuer feature
ImplicitFailed(r, st, i, o, in, out) ==
  UNION {
    If(~BicOK(r, o.id), "V08,V11:block issuance credit"),
    If(o.fc # 0, "V07,V11:foundry counter"),
    BlockIssuerFailed(r, i, TRUE, MaxTick, o, in, out),
    AccountNewFailed(r, st, o) }

\* --------------------------------------------------- anchor, NFT, foundry ---
AnchorChangeFailed(c, o) ==
  UNION {
    If(~FtsEq(c.imf, o.imf), "V06:immutable features changed"),
    IF o.si = c.si
    THEN If(o.amt # c.amt, "V06:amount changed by governor") \cup If(~SameFt(c, o, FState), "V06:state changed by governor")
    ELSE UNION {
      If(o.si # c.si + 1, "V06:state index"),
      If(AKey(UC(c, UState).a) # AKey(UC(o, UState).a) \/ AKey(UC(c, UGov).a) # AKey(UC(o, UGov).a), "V06:controllers changed by state controller"),
      If(~SameFt(c, o, FMeta), "V06:metadata changed by state controller") } }

FoundryNewFailed(r, j) ==
  LET o == Outs(r)[j]
      acc == <<"account", UC(o, UImm).a.n>>
      ins == {i \in InWith(r, acc) : r.ins[i].out.t = "account"}
      outs == OutWith(r, acc)
      earlier == {k \in 1..(j - 1) : NewFoundry(r, k) /\ UC(Outs(r)[k], UImm).a = UC(o, UImm).a}
  IN UNION {
    If(o.melted # Zero \/ o.minted # OutSum(r, FndKey(o)), "V02:new foundry supply"),
    IF ins = {} \/ outs = {} THEN {"V07:foundry without account"}
    ELSE If(LET a == r.ins[CHOOSE i \in ins : TRUE].out  b == Outs(r)[CHOOSE k \in outs : TRUE]
            IN o.sn <= a.fc \/ o.sn > b.fc, "V07:foundry serial outside of counter"),
    If(\E k \in earlier : Outs(r)[k].sn >= o.sn, "V07:foundry serials not ascending") }

FoundryChangeFailed(r, c, o) ==
  LET in == InSum(r, FndKey(o))  out == OutSum(r, FndKey(o)) IN
  UNION {
    If(~FtsEq(c.imf, o.imf), "V06:immutable features changed"),
    If(c.max # o.max, "V02:maximum supply changed"),
    \* minted and melted grow by exactly what appears and disappears
    IF Lt(o.minted, c.minted) \/ Lt(o.melted, c.melted) THEN {"V02:supply counters decreased"}
    ELSE LET up == Sub(o.minted, c.minted)  down == Sub(o.melted, c.melted) IN
         If(up # Monus(out, in) \/ down # Monus(in, out), "V02:supply counters") }

FoundryDestroyFailed(r, c) ==
  UNION {
    If(~Can(r, CFoundry), "V06,V12:foundry destroyed without capability"),
    If(Add(c.minted, OutSum(r, FndKey(c))) # Add(c.melted, InSum(r, FndKey(c))), "V02:tokens left of a destroyed foundry") }

\* -------------------------------------------------------------- delegation ---
DelegNewFailed(r, o) ==
  IF ~HasCmt(r) THEN {"V10:commitment missing"}
  ELSE UNION {
    If(o.start # DelegStart(PP(r.p), r.cmt), "V10:start epoch"),
    If(o.damt # o.amt, "V10:delegated amount"),
    If(o.end # 0, "V10:end epoch of new delegation") }
DelegChangeFailed(r, i, c, o) ==
  UNION {
    If(Claims(r, i), "V10:rewards claimed by transition"),
    If(c.id # 0, "V10:transitioned twice"),
    If(c.damt # o.damt \/ c.val # o.val \/ c.start # o.start, "V10:delegation modified"),
    IF ~HasCmt(r) THEN {"V10:commitment missing"} ELSE If(o.end # DelegEnd(PP(r.p), r.cmt), "V10:end epoch") }

\* ------------------------------------------------------------------ chains ---
GenesisFailed(r, st, j) ==
  LET o == Outs(r)[j] IN
  CASE o.t = "foundry" -> FoundryNewFailed(r, j)
    [] o.id # 0 -> {"V06:chain output without chain"}
    [] o.t = "account" -> AccountNewFailed(r, st, o)
    [] o.t \in {"anchor", "nft"} -> If(~IssuerOK(o, st), "V13:issuer not unlocked")
    [] o.t = "deleg" -> DelegNewFailed(r, o)
ChangeFailed(r, st, i, j, in, out) ==
  LET c == r.ins[i].out  o == Outs(r)[j] IN
  CASE c.t = "basic"   -> ImplicitFailed(r, st, i, o, in, out)
    [] c.t = "account" -> AccountChangeFailed(r, i, c, o, in, out)
    [] c.t = "anchor"  -> AnchorChangeFailed(c, o)
    [] c.t = "nft"     -> If(~FtsEq(c.imf, o.imf), "V06:immutable features changed")
    [] c.t = "foundry" -> FoundryChangeFailed(r, c, o)
    [] c.t = "deleg"   -> DelegChangeFailed(r, i, c, o)
DestroyFailed(r, i) ==
  LET c == r.ins[i].out IN
  CASE c.t = "basic"   -> {"V11:implicit account destroyed"}
    [] c.t = "account" -> AccountDestroyFailed(r, i, c)
    [] c.t = "anchor"  -> If(~Can(r, CAnchor), "V06,V12:anchor destroyed without capability")
    [] c.t = "nft"     -> If(~Can(r, CNft), "V06,V12:NFT destroyed without capability")
    [] c.t = "foundry" -> FoundryDestroyFailed(r, c)
    [] c.t = "deleg"   -> If(~Claims(r, i), "V10:destroyed without claiming rewards")

ChainsFailed(r, st, in, out) ==
  LET inIdx  == {i \in DOMAIN r.ins : InChain(r.ins[i]) # <<>>}
      outIdx == {j \in DOMAIN Outs(r) : OutChain(Outs(r), j) # <<>>}
  IN UNION ({ IF NextOf(r, i) = {} THEN DestroyFailed(r, i) ELSE UNION {ChangeFailed(r, st, i, j, in, out) : j \in NextOf(r, i)} : i \in inIdx }
            \cup { GenesisFailed(r, st, j) : j \in {x \in outIdx : InWith(r, OutChain(Outs(r), x)) = {}} })

ImplicitInputs(r) == Cardinality({i \in DOMAIN r.ins : IsImplicit(r.ins[i].out)})

\* --------------------------------------------------------------------- all ---
VmFailed(r) ==
  LET st == Unlocked(r) IN
  IF st.bad # {} THEN st.bad
  ELSE LET in  == IF Late(r) THEN Zero ELSE ManaIn(r)
           out == ManaOut(r)
       IN UNION {
         ManaFailed(r, in, out),
         TimelockFailed(r),
         SenderFailed(r, st),
         BaseFailed(r, st),
         TokensFailed(r),
         ChainsFailed(r, st, in, out),
         If(ImplicitInputs(r) > 1, "V11:more than one implicit account") }
=============================================================================
