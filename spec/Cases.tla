-------------------------------- MODULE Cases -------------------------------
(* Small-scope transactions for replay on the real code: every family is a     *)
(* product of small tables chosen around the boundaries of some rules; a       *)
(* case is a choice from each table, completed to a transaction that is valid  *)
(* as far as its choices allow (base tokens and mana balanced, everything      *)
(* unlocked), so that the rules in question decide its verdict.                *)
(* Cases are walked through in a fixed order that spreads over the product.    *)
EXTENDS Nova, SequencesExt

\* ---------------------------------------------------------------- builders ---
Ed(n) == [k |-> "ed", n |-> n]   Imp(n) == [k |-> "imp", n |-> n]
Acc(n) == [k |-> "acc", n |-> n] Anc(n) == [k |-> "anc", n |-> n] Nft(n) == [k |-> "nft", n |-> n]
Restr(a, bm) == [k |-> "restr", in |-> a, bm |-> bm]
AllBm == <<255, 1>>
SubRank(a) == CASE a.k = "ed" -> Params[1].keyrank[a.n + 1] [] a.k = "acc" -> 1000 [] a.k = "nft" -> 2000 [] OTHER -> 3000
SortedSubs(s) == SortSeq(s, LAMBDA x, y : SubRank(x.a) < SubRank(y.a))
Multi(thr, subs) == [k |-> "multi", thr |-> thr, subs |-> SortedSubs(subs)]
Sub1(a, w) == [a |-> a, w |-> w, r |-> 0]

CAddr(a) == [k |-> UAddr, a |-> a]              CSdr(a, amt) == [k |-> USdr, a |-> a, amt |-> amt]
CTime(s) == [k |-> UTime, slot |-> s]           CExp(a, s) == [k |-> UExp, a |-> a, slot |-> s]
CState(a) == [k |-> UState, a |-> a]            CGov(a) == [k |-> UGov, a |-> a]   CImm(a) == [k |-> UImm, a |-> a]
FtSender(a) == [k |-> FSender, a |-> a]         FtIssuer(a) == [k |-> FIssuer, a |-> a]
Ent(k, v) == [key |-> k, kl |-> 2, v |-> v, vl |-> 3, bad |-> 0]
FtMeta(v) == [k |-> FMeta, ents |-> <<Ent(1, v)>>]
FtState(v) == [k |-> FState, ents |-> <<Ent(1, v)>>]
FtTag(n) == [k |-> FTag, tag |-> n, len |-> 4]
FtTok(acc, sn, amt) == [k |-> FToken, id |-> [acc |-> acc, sn |-> sn, sch |-> 0], amt |-> amt]
FtBlock(exp) == [k |-> FBlock, exp |-> exp, keys |-> <<[n |-> 11, r |-> 0]>>]
FtStake(amt, cost, start, end) == [k |-> FStake, amt |-> amt, cost |-> cost, start |-> start, end |-> end]

Basic(amt, mana, uc, ft) == [t |-> "basic", amt |-> amt, mana |-> mana, id |-> 0, uc |-> uc, ft |-> ft, imf |-> <<>>]
AccO(id, amt, mana, fc, a, ft, imf) == [t |-> "account", amt |-> amt, mana |-> mana, id |-> id, uc |-> <<CAddr(a)>>, ft |-> ft, imf |-> imf, fc |-> fc]
AncO(id, amt, si, sc, gov, ft, imf) == [t |-> "anchor", amt |-> amt, mana |-> Zero, id |-> id, uc |-> <<CState(sc), CGov(gov)>>, ft |-> ft, imf |-> imf, si |-> si]
NftO(id, amt, uc, ft, imf) == [t |-> "nft", amt |-> amt, mana |-> Zero, id |-> id, uc |-> uc, ft |-> ft, imf |-> imf]
FndO(amt, acc, sn, minted, melted, max, ft, imf) ==
  [t |-> "foundry", amt |-> amt, mana |-> Zero, id |-> 0, uc |-> <<CImm(Acc(acc))>>, ft |-> ft, imf |-> imf, sn |-> sn, sch |-> 0, minted |-> minted, melted |-> melted, max |-> max]
DelO(id, amt, damt, val, start, end, a) ==
  [t |-> "deleg", amt |-> amt, mana |-> Zero, id |-> id, uc |-> <<CAddr(a)>>, ft |-> <<>>, imf |-> <<>>, damt |-> damt, val |-> val, start |-> start, end |-> end]
\* input n: the chain an output of it starts is 50 + n
In(n, slot, o) == [slot |-> slot, tx |-> 100 + n, idx |-> 0, own |-> 50 + n, out |-> o]
Own(n) == 50 + n

Amt == <<0, 0, 1>>                \* 10^8, covers the deposit of every small output
FundAmt == <<0, 0, 1000>>
OptS(c, x) == IF c THEN <<x>> ELSE <<>>
Flat(ss) == FlattenSeq(SubSeq([i \in DOMAIN ss |-> SubSeq(ss[i], 1, Len(ss[i]))], 1, Len(ss)))
\* n plus a small integer, not below zero
AddI(n, d) == IF d >= 0 THEN Add(n, FromInt(d)) ELSE Monus(n, FromInt(0 - d))

Sig(n) == [k |-> "sig", key |-> n, bad |-> 0]
BadSig(n, b) == [k |-> "sig", key |-> n, bad |-> b]
RefU(k, i) == [k |-> k, i |-> i]
EmptyU == [k |-> "empty"]
MultiU(subs) == [k |-> "multi", subs |-> subs]

\* the unlocks that open everything if anything does
FirstIdx(us, P(_)) == LET S == {j \in DOMAIN us : P(us[j])} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : j <= x
LastChain(r, i, a) ==
  LET S == {j \in 1..(i - 1) : LET c == InChain(r.ins[j]) IN c # <<>> /\ <<ChainAddrKind(c[1]), c[2]>> = AKey(a)}
  IN IF S = {} THEN 0 ELSE (CHOOSE j \in S : \A x \in S : j >= x) - 1
Unl1(r, us, i, a, top) ==
  CASE a.k \in {"ed", "imp"} -> LET j == FirstIdx(us, LAMBDA u : u.k = "sig" /\ u.key = a.n) IN IF j = 0 THEN Sig(a.n) ELSE RefU("ref", j - 1)
    [] OTHER -> RefU(a.k, LastChain(r, i, a))
RECURSIVE UnlFrom(_, _, _)
UnlFrom(r, us, i) ==
  IF i > Len(r.ins) THEN us
  ELSE LET cl == Claimant(r, i)
           o == r.ins[i].out
           a == Underlying(IF cl.k # "none" THEN cl ELSE IF o.t = "anchor" THEN UC(o, UGov).a ELSE UC(o, UAddr).a)
           same == {j \in 1..(i - 1) : us[j].k = "multi" /\ AKey(Underlying(Claimant(r, j))) = AKey(a)}
           u == IF a.k # "multi" THEN Unl1(r, us, i, a, TRUE)
                ELSE IF same # {} THEN RefU("ref", (CHOOSE j \in same : TRUE) - 1)
                ELSE MultiU([m \in DOMAIN a.subs |-> Unl1(r, us, i, a.subs[m].a, FALSE)])
       IN UnlFrom(r, Append(us, u), i + 1)
AutoUnl(r) == UnlFrom(r, <<>>, 1)

\* options of a case: credits, rewards, capabilities, allotments; sink: the
\* output that gets the mana that is left over (0: the remainder); off by damt
\* and dmana; fund: whether an output that pays for everything is consumed as
\* well, and what remains of it goes to a remainder; ctx: commitment listed but not resolved
Def == [caps |-> <<>>, allot |-> <<>>, bic |-> <<>>, rew |-> <<>>, sink |-> 0, damt |-> 0, dmana |-> 0, fund |-> TRUE, first |-> FALSE, cmtctx |-> FALSE, unl |-> <<>>]
Bic(acc, v) == [acc |-> acc, v |-> v]
Rew(i, mana) == [i |-> i, mana |-> mana]
Allot(acc, mana) == [acc |-> acc, mana |-> mana, r |-> 0]

Finish(kind, p, T, c, ins0, outs0, x) ==
  LET fund == [slot |-> T, tx |-> 900, idx |-> 3, own |-> 0, out |-> Basic(FundAmt, Zero, <<CAddr(Ed(8))>>, <<>>)]
      ins == IF ~x.fund THEN ins0 ELSE IF x.first THEN <<fund>> \o ins0 ELSE Append(ins0, fund)
      rew == IF x.fund /\ x.first THEN [k \in DOMAIN x.rew |-> [x.rew[k] EXCEPT !.i = @ + 1]] ELSE x.rew
      ctx == IF c < 0 /\ ~x.cmtctx THEN <<>>
             ELSE <<[k |-> "cmt"]>> \o [k \in DOMAIN x.bic |-> [k |-> "bic", acc |-> x.bic[k].acc, r |-> 0]] \o [k \in DOMAIN rew |-> [k |-> "rew", idx |-> rew[k].i - 1]]
      r0 == [kind |-> kind, p |-> p,
             tx |-> [slot |-> T, net |-> 1, ctx |-> ctx, caps |-> x.caps, allot |-> x.allot, outs |-> outs0, ptag |-> -1, pdata |-> 0],
             ins |-> ins, cmt |-> c, bic |-> x.bic, rew |-> rew, hasrew |-> IF rew = <<>> THEN 0 ELSE 1, unl |-> <<>>]
      inA == Sum([i \in DOMAIN ins |-> ins[i].out.amt])
      outA == Sum([j \in DOMAIN outs0 |-> outs0[j].amt])
      remA == AddI(Monus(inA, outA), x.damt)
      left == IF Late(r0) THEN Zero ELSE AddI(Monus(ManaIn(r0), ManaOut(r0)), x.dmana)
      rem == Basic(remA, IF x.sink = 0 THEN left ELSE Zero, <<CAddr(Ed(9))>>, <<>>)
      outs1 == IF x.sink = 0 \/ x.sink > Len(outs0) THEN outs0 ELSE [outs0 EXCEPT ![x.sink].mana = Add(@, left)]
      outs == IF x.fund THEN Append(outs1, rem) ELSE outs1
      r1 == [r0 EXCEPT !.tx.outs = outs]
  IN [r1 EXCEPT !.unl = IF x.unl = <<>> THEN AutoUnl(r1) ELSE x.unl]

Skip == [kind |-> "skip"]
P16(n) == Pow2(n)
=============================================================================
