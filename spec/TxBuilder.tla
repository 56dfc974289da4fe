------------------------------ MODULE TxBuilder -----------------------------
(* Building a transaction: who is asked to sign, which unlock every input      *)
(* gets, and how much mana there is to give away.  A builder is [r, err]: the  *)
(* transaction record so far (Objects) and whether a step failed.              *)
EXTENDS Nova, SequencesExt

NoU == [k |-> "none"]
\* ---------------------------------------------------------------- unlocks ---
\* the i-th input, to be unlocked by address tg[i], with keys known to the signer;
\* us: unlocks so far, chains: <<address, index>> of what earlier inputs consumed
RECURSIVE UnlFold(_, _, _, _, _)
UnlFold(r, tg, keys, us, chains) ==
  LET i == Len(us) + 1 IN
  IF i > Len(r.ins) THEN us
  ELSE LET a == Underlying(tg[i])
           signed == {j \in DOMAIN us : us[j].k = "sig" /\ us[j].key = a.n}
           c == InChain(r.ins[i])
           chains2 == IF r.ins[i].out.t \in {"account", "anchor", "nft"} THEN {p \in chains : p[1] # <<ChainAddrKind(c[1]), c[2]>>} \cup {<<<<ChainAddrKind(c[1]), c[2]>>, i - 1>>} ELSE chains
           own == {p[2] : p \in {q \in chains : q[1] = AKey(a)}}
           u == CASE a.k \in {"acc", "anc", "nft"} -> IF own = {} THEN NoU ELSE [k |-> a.k, i |-> CHOOSE x \in own : TRUE]
                  [] a.k \in {"ed", "imp"} -> IF a.n \notin keys THEN NoU
                                              ELSE IF signed = {} THEN [k |-> "sig", key |-> a.n, bad |-> 0]
                                              ELSE [k |-> "ref", i |-> (CHOOSE x \in signed : TRUE) - 1]
                  [] OTHER -> NoU
       IN IF u = NoU THEN Append(us, u) \o SubSeq([j \in 1..(Len(r.ins) - i) |-> NoU], 1, Len(r.ins) - i) ELSE UnlFold(r, tg, keys, Append(us, u), chains2)
UnlocksFor(r, tg, keys) == UnlFold(r, tg, keys, <<>>, {})
Unlockable(us) == \A j \in DOMAIN us : us[j] # NoU

\* ------------------------------------------------------------------- mana ---
\* the account to which an input's mana is bound, 0: none
BoundTo(in) == IF in.out.t = "account" \/ IsImplicit(in.out) THEN InChain(in)[2] ELSE 0
\* the account to which an output's mana is bound; of an account that is created
\* there is nothing before
LockSlot(r) == r.tx.slot + 2 * PP(r.p).maxca
HeldBy(r, o) ==
  IF o.t = "account" THEN o.id
  ELSE IF HasUC(o, UTime) /\ UC(o, UTime).slot > LockSlot(r) /\ HasUC(o, UAddr) /\ UC(o, UAddr).a.k = "acc" THEN UC(o, UAddr).a.n ELSE 0

AtSlot(r, at) == [r EXCEPT !.tx.slot = at]
NoMana == [err |-> 1, total |-> Zero, unbound |-> Zero, pot |-> Zero, stored |-> Zero, upot |-> Zero, ustored |-> Zero, rew |-> Zero, bound |-> {}]
\* what the inputs and rewards bring; bound: pairs <<account, mana>>
Avail(r0, at) ==
  LET r == AtSlot(r0, at)
      I == DOMAIN r.ins
      st == SubSeq([i \in I |-> Stored(r, i)], 1, Len(r.ins))
      po == SubSeq([i \in I |-> Potential(r, i)], 1, Len(r.ins))
      rew == Sum([k \in DOMAIN r.rew |-> r.rew[k].mana])
      accs == {BoundTo(r.ins[i]) : i \in I} \ {0}
      of(s, S) == Sum([i \in I |-> IF i \in S THEN s[i] ELSE Zero])
      free == {i \in I : BoundTo(r.ins[i]) = 0}
      total == Add(of(st, I), of(po, I))
      unbound == Add(Add(of(st, free), of(po, free)), rew)
  IN IF Late(r) \/ Lt(MaxU64, total) \/ Lt(MaxU64, unbound) THEN NoMana
     ELSE [err |-> 0, total |-> total, unbound |-> unbound, pot |-> of(po, I), stored |-> of(st, I), upot |-> of(po, free), ustored |-> of(st, free), rew |-> rew,
           bound |-> {<<a, LET S == {i \in I : BoundTo(r.ins[i]) = a} IN Add(of(st, S), of(po, S))>> : a \in accs}]
BoundOf(v, a) == LET S == {p \in v.bound : p[1] = a} IN IF S = {} THEN Zero ELSE (CHOOSE p \in S : TRUE)[2]

\* what is left of it after outputs and allotments: mana for an account is taken
\* from its own first
Left(r, at) ==
  LET v == Avail(r, at) IN
  IF v.err = 1 THEN v
  ELSE LET accs == {p[1] : p \in v.bound}
           J == DOMAIN r.tx.outs
           for(a) == Add(Sum([j \in J |-> IF HeldBy(r, r.tx.outs[j]) = a THEN r.tx.outs[j].mana ELSE Zero]), Sum([k \in DOMAIN r.tx.allot |-> IF r.tx.allot[k].acc = a THEN r.tx.allot[k].mana ELSE Zero]))
           aseq == SetToSeq(accs)
           loose == Add(Sum([j \in J |-> IF HeldBy(r, r.tx.outs[j]) \notin accs THEN r.tx.outs[j].mana ELSE Zero]), Sum([k \in DOMAIN r.tx.allot |-> IF r.tx.allot[k].acc \notin accs THEN r.tx.allot[k].mana ELSE Zero]))
           need == Add(loose, Sum([n \in DOMAIN aseq |-> Monus(for(aseq[n]), BoundOf(v, aseq[n]))]))
       IN IF Lt(v.unbound, need) THEN NoMana
          ELSE [v EXCEPT !.unbound = Sub(v.unbound, need), !.bound = {<<p[1], Monus(p[2], for(p[1]))>> : p \in v.bound}]

\* ------------------------------------------------------------------ steps ---
Fail(b) == [b EXCEPT !.err = TRUE]
Give(b, acc, m) ==
  LET S == {k \in DOMAIN b.r.tx.allot : b.r.tx.allot[k].acc = acc}  k == CHOOSE x \in S : TRUE IN
  IF m = Zero THEN b
  ELSE IF S = {} THEN [b EXCEPT !.r.tx.allot = Append(@, [acc |-> acc, mana |-> m, r |-> 0])]
  ELSE LET v == Add(b.r.tx.allot[k].mana, m) IN IF Lt(MaxU64, v) THEN Fail(b) ELSE [b EXCEPT !.r.tx.allot[k].mana = v]
RECURSIVE GiveAll(_, _)
GiveAll(b, S) == IF S = {} THEN b ELSE LET p == CHOOSE x \in S : TRUE IN GiveAll(Give(b, p[1], p[2]), S \ {p})

\* the account of the output that is to store mana; -1: there is none
Holder(r, idx) ==
  IF idx >= Len(r.tx.outs) THEN -1
  ELSE LET o == r.tx.outs[idx + 1] IN IF o.t \in {"foundry", "deleg"} THEN -1 ELSE HeldBy(r, o)

\* what is bound goes to its accounts, except those ignored
GiveBound(b, at, ignore) ==
  LET v == Left(b.r, at) IN IF v.err = 1 THEN Fail(b) ELSE GiveAll(b, {p \in v.bound : p[1] \notin ignore})
GiveEverything(b, at, acc, min) ==
  LET v == Left(b.r, at) IN
  IF v.err = 1 THEN Fail(b)
  ELSE LET b2 == Give(GiveAll(b, v.bound), acc, v.unbound)  got == Add(BoundOf(v, acc), v.unbound) IN
       IF Lt(MaxU64, got) \/ Lt(got, min) THEN Fail(b2) ELSE b2
\* what is unbound, and what is bound to its holder, goes to the output
StoreRest(b, at, idx, holder) ==
  LET v == Left(b.r, at) IN
  IF v.err = 1 THEN Fail(b)
  ELSE LET m == Add(b.r.tx.outs[idx + 1].mana, Add(v.unbound, IF holder = 0 THEN Zero ELSE BoundOf(v, holder))) IN
       IF Lt(MaxU64, m) THEN Fail(b) ELSE [b EXCEPT !.r.tx.outs[idx + 1].mana = m]
Store(b, at, idx) ==
  LET h == Holder(b.r, idx) IN IF h = -1 THEN Fail(b) ELSE StoreRest(GiveBound(b, at, {h}), at, idx, h)

\* cost of a block with the transaction, in which the account has an allotment
WithAllot(r, acc) == IF \E k \in DOMAIN r.tx.allot : r.tx.allot[k].acc = acc THEN r ELSE [r EXCEPT !.tx.allot = Append(@, [acc |-> acc, mana |-> One, r |-> 0])]
MaxU32 == Sub(Pow2(32), One)
Cost(b, tg, keys, rmc, acc) ==
  LET us == UnlocksFor(b.r, tg, keys)
      work == SignedWork(PP(b.r.p), [WithAllot(b.r, acc) EXCEPT !.unl = us])
      cost == Mul(rmc, work)
  IN IF b.err \/ ~Unlockable(us) \/ Lt(MaxU32, work) \/ Lt(MaxU64, cost) THEN [err |-> 1, v |-> Zero] ELSE [err |-> 0, v |-> cost]
\* the issuer gets what the block costs, counting what it is given anyway
GiveMin(b, tg, keys, at, rmc, acc, idx) ==
  LET h == Holder(b.r, idx)
      v == Left(b.r, at)
      b2 == GiveBound(b, at, {h})
      c == Cost(b2, tg, keys, rmc, acc)
      anyway == IF v.err = 1 \/ acc = h THEN Zero ELSE BoundOf(v, acc)
  IN IF h = -1 \/ c.err = 1 THEN Fail(b2) ELSE StoreRest(Give(b2, acc, Monus(c.v, anyway)), at, idx, h)

Step(b, tg, keys, o) ==
  CASE o.m = "allot" -> Give(b, o.acc, o.mana)
    [] o.m = "bound" -> GiveBound(b, o.at, Range(o.ign))
    [] o.m = "all"   -> GiveEverything(b, o.at, o.acc, o.mana)
    [] o.m = "store" -> Store(b, o.at, o.idx)
    [] o.m = "min"   -> GiveMin(b, tg, keys, o.at, o.mana, o.acc, o.idx)
    [] OTHER -> b             \* questions: "cost", "left"
RECURSIVE Steps(_, _, _, _, _)
Steps(b, tg, keys, os, n) == IF n = 0 THEN b ELSE Step(Steps(b, tg, keys, os, n - 1), tg, keys, os[n])
\* allotments are entered one by one; rewards must not overflow
RECURSIVE Enter(_, _)
Enter(b, as) == IF as = <<>> THEN b ELSE Enter(Give(b, as[1].acc, as[1].mana), Tail(as))
Begin(r) == Enter([r |-> [r EXCEPT !.tx.allot = <<>>], err |-> Lt(MaxU64, Sum([k \in DOMAIN r.rew |-> r.rew[k].mana]))], r.tx.allot)
BuildFails(b, tg, keys) == b.err \/ ~Unlockable(UnlocksFor(b.r, tg, keys))

\* ------------------------------------------------------------------- laws ---
\* inputs unlocked for their claimants are unlocked (an anchor only unlocks what
\* it owns if its state changes, which a builder does not see)
UnlockLaw(r, tg, us) ==
  (Len(r.ins) > 0 /\ Unlockable(us) /\ (\A i \in DOMAIN tg : tg[i] = Claimant(r, i)) /\ (\A i \in DOMAIN us : us[i].k # "anc"))
    => Unlocked([r EXCEPT !.unl = us]).bad = {}
\* after the last of the mana is given away nothing is left, and no account lost any
Emptied(b, at, ign) ==
  LET v == Left(b.r, at) IN v.err = 0 /\ v.unbound = Zero /\ \A p \in v.bound : p[2] = Zero
=============================================================================
