------------------------------- MODULE Syntax -------------------------------
(* What a signed transaction must satisfy on its own, before it is looked at   *)
(* together with the outputs it consumes.  SynFailed(r) is the set of rules a  *)
(* record violates; a rule is named "<properties>:<rule>".                     *)
EXTENDS Objects

If(c, rule) == IF c THEN {rule} ELSE {}

RECURSIVE StrictlyInc(_, _, _)
StrictlyInc(s, key(_), i) == IF i >= Len(s) THEN TRUE ELSE key(s[i]) < key(s[i + 1]) /\ StrictlyInc(s, key, i + 1)
Increasing(s, key(_)) == StrictlyInc(s, key, 1)
KeyK(x) == x.k
KeyR(x) == x.r

\* -------------------------------------------------------------- addresses ---
PlainKinds == {"ed", "acc", "anc", "nft"}
RECURSIVE BadAddr(_)
BadAddr(a) ==
  CASE a.k = "restr" -> a.in.k \in {"restr", "imp"} \/ Len(a.bm) > 2
                        \/ (Len(a.bm) > 0 /\ a.bm[Len(a.bm)] = 0) \/ BadAddr(a.in)
    [] a.k = "multi" -> \/ Len(a.subs) < 2 \/ Len(a.subs) > 10
                        \/ \E i \in DOMAIN a.subs : a.subs[i].a.k \notin PlainKinds \/ a.subs[i].w < 1
                        \/ a.thr < 1 \/ a.thr > SumInts([i \in DOMAIN a.subs |-> a.subs[i].w])
                        \/ ~Increasing(a.subs, KeyR)
    [] OTHER -> FALSE

AddrsOfOut(o) == {o.uc[i].a : i \in {j \in DOMAIN o.uc : o.uc[j].k # UTime}}
                 \cup {o.ft[i].a : i \in {j \in DOMAIN o.ft : o.ft[j].k <= FIssuer}}
                 \cup {o.imf[i].a : i \in {j \in DOMAIN o.imf : o.imf[j].k <= FIssuer}}

\* -------------------------------------------------------- output structure ---
AllowedUC(t) == CASE t \in {"basic", "nft"} -> {UAddr, USdr, UTime, UExp}
                  [] t \in {"account", "deleg"} -> {UAddr}
                  [] t = "anchor" -> {UState, UGov}
                  [] t = "foundry" -> {UImm}
NeededUC(t) == CASE t = "anchor" -> {UState, UGov} [] t = "foundry" -> {UImm} [] OTHER -> {UAddr}
AllowedFt(t) == CASE t = "basic" -> {FSender, FMeta, FTag, FToken}
                  [] t = "account" -> {FSender, FMeta, FBlock, FStake}
                  [] t = "anchor" -> {FMeta, FState}
                  [] t = "foundry" -> {FMeta, FToken}
                  [] t = "nft" -> {FSender, FMeta, FTag}
                  [] OTHER -> {}
AllowedImf(t) == CASE t \in {"account", "anchor", "nft"} -> {FIssuer, FMeta} [] t = "foundry" -> {FMeta} [] OTHER -> {}
KindsOf(s) == {s[i].k : i \in DOMAIN s}
BadStructure(o) ==
  \/ ~(KindsOf(o.uc) \subseteq AllowedUC(o.t)) \/ ~(NeededUC(o.t) \subseteq KindsOf(o.uc))
  \/ ~(KindsOf(o.ft) \subseteq AllowedFt(o.t)) \/ ~(KindsOf(o.imf) \subseteq AllowedImf(o.t))

BadEnts(f) == Len(f.ents) = 0 \/ \E i \in DOMAIN f.ents : f.ents[i].bad # 0
BadFt(f) ==
  CASE f.k \in {FMeta, FState} -> BadEnts(f)
    [] f.k = FTag   -> f.len < 1 \/ f.len > 64
    [] f.k = FBlock -> Len(f.keys) < 1 \/ Len(f.keys) > 128 \/ ~Increasing(f.keys, KeyR)
    [] OTHER -> FALSE

\* ------------------------------------------------ address capability flags ---
RestrictedBy(o, a) ==
  \/ Refuses(a, 0) /\ HasFt(o, FToken)
  \/ Refuses(a, 1) /\ o.mana # Zero
  \/ Refuses(a, 2) /\ HasUC(o, UTime)
  \/ Refuses(a, 3) /\ HasUC(o, UExp)
  \/ Refuses(a, 4) /\ HasUC(o, USdr)
  \/ Refuses(a, 5) /\ o.t = "account"
  \/ Refuses(a, 6) /\ o.t = "anchor"
  \/ Refuses(a, 7) /\ o.t = "nft"
  \/ Refuses(a, 8) /\ o.t = "deleg"
ReceivingAddrs(o) == {o.uc[i].a : i \in {j \in DOMAIN o.uc : o.uc[j].k \in {UAddr, UState, UGov, UExp}}}

\* ---------------------------------------------------------------- outputs ---
OutFailed(pp, r, o) ==
  LET hasCmt == HasK(r.tx.ctx, "cmt")
  IN
  UNION {
    If(BadStructure(o), "S01:structure"),
    If(~Increasing(o.uc, KeyK), "S01:conditions not sorted and unique"),
    If(~Increasing(o.ft, KeyK) \/ ~Increasing(o.imf, KeyK), "S01:features not sorted and unique"),
    If(\E f \in Range(o.ft) \cup Range(o.imf) : BadFt(f), "S01:malformed feature"),
    If(\E f \in Range(o.ft) : f.k \in {FMeta, FState} /\ MapSize(f.ents) > 8192, "S01:metadata too big"),
    If(\E a \in AddrsOfOut(o) : BadAddr(a), "S01,B05:malformed address"),
    If(o.amt = Zero, "S01,V01:amount zero"),
    If(\E i \in DOMAIN o.uc : o.uc[i].k \in {UTime, UExp} /\ o.uc[i].slot = 0, "S01,V05:condition slot zero"),
    If(HasFt(o, FToken) /\ Ft(o, FToken).amt = Zero, "S01,V02:token amount zero"),
    IF BadStructure(o) THEN {} ELSE UNION {
      If(Lt(o.amt, MinDeposit(pp, o)), "S04:storage deposit not covered"),
      IF ~HasUC(o, USdr) THEN {} ELSE LET u == UC(o, USdr) IN
        If(Lt(u.amt, MinDeposit(pp, PlainOut(u.a))), "S04:return amount below deposit of the return")
        \cup If(Lt(o.amt, u.amt), "S01,S04:return amount above amount"),
      If(\E a \in ReceivingAddrs(o) : RestrictedBy(o, a), "S04:address does not allow the output"),
      If(\E i \in DOMAIN o.uc : o.uc[i].k \in {USdr, UExp, UState, UGov} /\ o.uc[i].a.k = "imp", "S01,V11:implicit address in condition"),
      If(o.t \in {"account", "nft", "deleg"} /\ UC(o, UAddr).a.k = "imp", "S01,V11:implicit address in output"),
      CASE o.t = "account" ->
           LET u == UC(o, UAddr) IN UNION {
             If(o.id = 0 /\ o.fc # 0, "S01,V07:new account with foundry counter"),
             If(u.a = [k |-> "acc", n |-> o.id], "S01:account owns itself"),
             If(HasFt(o, FStake) /\ Lt(o.amt, Ft(o, FStake).amt), "S01,V09:staked more than held"),
             If(HasFt(o, FStake) /\ ~HasFt(o, FBlock), "S01,V09:staking without block issuer") }
        [] o.t = "anchor" -> UNION {
             If(o.id = 0 /\ o.si # 0, "S01,V06:new anchor with state index"),
             If(o.id # 0 /\ \E k \in {UState, UGov} : UC(o, k).a = [k |-> "anc", n |-> o.id], "S01:anchor controls itself") }
        [] o.t = "nft" -> If(o.id # 0 /\ UC(o, UAddr).a = [k |-> "nft", n |-> o.id], "S01:NFT owns itself")
        [] o.t = "foundry" -> UNION {
             If(o.max = Zero, "S01,V02:maximum supply zero"),
             If(Lt(o.minted, o.melted), "S01,V02:melted more than minted"),
             If(Leq(o.melted, o.minted) /\ Lt(o.max, Sub(o.minted, o.melted)), "S01,V02:supply above maximum"),
             If(o.sch # 0, "S01:token scheme"),
             If(HasFt(o, FToken) /\ Ft(o, FToken).id # [acc |-> UC(o, UImm).a.n, sn |-> o.sn, sch |-> o.sch], "S01,V02:foreign token in foundry") }
        [] o.t = "deleg" -> If(o.val = 0, "S01,V10:delegation without validator")
        [] OTHER -> {},
      If(~hasCmt /\ (o.t = "deleg" \/ HasFt(o, FBlock) \/ HasFt(o, FStake)), "S01,V08,V09,V10:commitment input missing") }
  }

OutChainID(o) == IF o.t = "foundry" THEN FndKey(o) ELSE <<o.t, o.id>>
ChainOuts(outs) == {i \in DOMAIN outs : outs[i].t = "foundry" \/ (outs[i].t \in ChainTypes /\ outs[i].id # 0)}

OutputsFailed(pp, r) ==
  LET outs == r.tx.outs
      each == UNION {OutFailed(pp, r, outs[i]) : i \in DOMAIN outs}
      wf == \A i \in DOMAIN outs : ~BadStructure(outs[i])
  IN UNION {
    each,
    If(Len(outs) < 1 \/ Len(outs) > 128, "S01:output count"),
    If(Lt(pp.supply, Sum([i \in DOMAIN outs |-> outs[i].amt])), "S01,V01:more than the supply"),
    If(Lt(MaxMana(pp), Sum([i \in DOMAIN outs |-> outs[i].mana])), "S01,V03:stored mana above maximum"),
    IF ~wf THEN {} ELSE
      If(\E i, j \in ChainOuts(outs) : i < j /\ OutChainID(outs[i]) = OutChainID(outs[j]), "S01,V06:chain output twice")
  }

\* ---------------------------------------------------------------- essence ---
CtxClass(c) == CASE c.k = "cmt" -> 0 [] c.k = "bic" -> 1 [] c.k = "rew" -> 2
CtxLess(a, b) == IF a.k # b.k THEN CtxClass(a) < CtxClass(b)
                 ELSE CASE a.k = "cmt" -> FALSE [] a.k = "bic" -> a.r < b.r [] a.k = "rew" -> a.idx < b.idx
CtxSorted(s) == \A i \in 1..(Len(s) - 1) : CtxLess(s[i], s[i + 1])

EssenceFailed(pp, r) ==
  LET t == r.tx
      ids == [i \in DOMAIN r.ins |-> <<r.ins[i].tx, r.ins[i].slot, r.ins[i].idx>>]
  IN UNION {
    If(Len(t.caps) > 1 \/ (Len(t.caps) > 0 /\ t.caps[Len(t.caps)] = 0), "S01,V12:capabilities not canonical"),
    If(t.net # 1, "S01:network"),
    If(Len(r.ins) < 1 \/ Len(r.ins) > 128, "S01:input count"),
    If(\E i, j \in DOMAIN ids : i < j /\ ids[i] = ids[j], "S01,V01:input twice"),
    If(\E i \in DOMAIN r.ins : r.ins[i].idx > 127, "S01:input index"),
    If(Len(t.ctx) > 128, "S01:context input count"),
    If(~CtxSorted(t.ctx), "S01:context inputs not sorted and unique"),
    If(\E i \in DOMAIN t.ctx : t.ctx[i].k = "rew" /\ t.ctx[i].idx >= Len(r.ins), "S01,V09,V10:reward index"),
    If((HasK(t.ctx, "rew") \/ HasK(t.ctx, "bic")) /\ ~HasK(t.ctx, "cmt"), "S01:context inputs without commitment"),
    If(Len(t.allot) > 128, "S01:allotment count"),
    If(~Increasing(t.allot, KeyR), "S01:allotments not sorted and unique"),
    If(Lt(MaxMana(pp), Sum([i \in DOMAIN t.allot |-> t.allot[i].mana])), "S01,V03:allotted mana above maximum"),
    If(t.ptag > 64, "S01:payload tag"),
    If(t.ptag >= 0 /\ t.pdata > 8192, "S01:payload data")
  }

\* ---------------------------------------------------------------- unlocks ---
Referential == {"ref", "acc", "anc", "nft"}
Chainable   == {"acc", "anc", "nft"}
\* an unlock list is judged from left to right; i is 1-based, references 0-based
UnlockFailed(us) ==
  LET isRef(j)   == j + 1 \in DOMAIN us /\ us[j + 1].k \in Referential
      isSig(j)   == j + 1 \in DOMAIN us /\ us[j + 1].k = "sig"
      isMulti(j) == j + 1 \in DOMAIN us /\ us[j + 1].k = "multi"
      before(i, j) == j + 1 < i
      topSigs(i)   == {us[j].key : j \in {x \in 1..(i - 1) : us[x].k = "sig"}}
      innerSigs(i) == UNION {{us[j].subs[m].key : m \in {y \in DOMAIN us[j].subs : us[j].subs[y].k = "sig"}} : j \in {x \in 1..(i - 1) : us[x].k = "multi"}}
      bad(i) == LET u == us[i] IN
        CASE u.k = "sig" -> u.key \in topSigs(i) \cup innerSigs(i)
          [] u.k \in Referential ->
               \* what may be referenced: an earlier unlock; another reference only by a chain unlock
               \/ ~before(i, u.i)
               \/ isRef(u.i) /\ u.k \notin Chainable
               \/ ~isRef(u.i) /\ ~isSig(u.i) /\ ~isMulti(u.i)
          [] u.k = "multi" ->
               \/ \E j \in 1..(i - 1) : us[j] = u
               \/ Len(u.subs) < 2 \/ Len(u.subs) > 10
               \/ \E m \in DOMAIN u.subs : LET s == u.subs[m] IN
                    CASE s.k = "sig" -> s.key \in topSigs(i)
                      [] s.k \in Referential ->
                           \/ ~before(i, s.i)
                           \/ isRef(s.i) /\ s.k \notin Chainable
                           \/ ~isRef(s.i) /\ ~isSig(s.i)
                      [] s.k = "multi" -> TRUE
                      [] OTHER -> FALSE
          [] u.k = "empty" -> TRUE
  IN If(\E i \in DOMAIN us : bad(i), "S02:unlock list")

SynFailed(r) ==
  LET pp == PP(r.p) IN
  UNION {
    EssenceFailed(pp, r),
    OutputsFailed(pp, r),
    If(Len(r.unl) # Len(r.ins), "S02:unlock count"),
    If(Len(r.unl) < 1 \/ Len(r.unl) > 128, "S02:unlock number"),
    UnlockFailed(r.unl)
  }
=============================================================================
