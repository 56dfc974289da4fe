---------------------------- MODULE MC_TxBuilder ----------------------------
(* The transaction builder in small scope: what is to be unlocked, by whom, in *)
(* every order; and mana given away step by step.  The laws relate what is     *)
(* built to the rules transactions are accepted by (Unlocks, Nova).            *)
EXTENDS TxBuilder, Cases
CONSTANTS MaxIns, MaxOps, Part, Whole   \* Whole: emit only what cannot grow any more
T == 1000
Back == 40

\* ------------------------------------------------------------ what to unlock ---
Plain(a) == Basic(Amt, Zero, <<CAddr(a)>>, <<>>)
Both(a, b, s) == Basic(Amt, Zero, <<CAddr(a), CExp(b, s)>>, <<>>)
\* output and who is to unlock it
Pool == <<
  <<Plain(Ed(1)), Ed(1)>>, <<Plain(Ed(2)), Ed(2)>>, <<Plain(Restr(Ed(1), AllBm)), Restr(Ed(1), AllBm)>>, <<Plain(Imp(1)), Imp(1)>>, <<Plain(Imp(3)), Imp(3)>>,
  <<Plain(Acc(20)), Acc(20)>>, <<Plain(Restr(Acc(20), AllBm)), Restr(Acc(20), AllBm)>>, <<Plain(Nft(20)), Nft(20)>>, <<Plain(Anc(20)), Anc(20)>>,
  <<Plain(Acc(Own(1))), Acc(Own(1))>>, <<Plain(Nft(Own(2))), Nft(Own(2))>>, <<Plain(Anc(Own(1))), Anc(Own(1))>>,
  <<Plain(Multi(1, <<Sub1(Ed(1), 1), Sub1(Ed(2), 1)>>)), Multi(1, <<Sub1(Ed(1), 1), Sub1(Ed(2), 1)>>)>>,
  <<AccO(20, Amt, Zero, 0, Ed(1), <<>>, <<>>), Ed(1)>>, <<AccO(0, Amt, Zero, 0, Ed(2), <<>>, <<>>), Ed(2)>>, <<AccO(0, Amt, Zero, 0, Nft(20), <<>>, <<>>), Nft(20)>>, <<AccO(20, Amt, Zero, 0, Acc(Own(1)), <<>>, <<>>), Acc(Own(1))>>,
  <<NftO(20, Amt, <<CAddr(Ed(2))>>, <<>>, <<>>), Ed(2)>>, <<NftO(0, Amt, <<CAddr(Acc(20))>>, <<>>, <<>>), Acc(20)>>, <<NftO(20, Amt, <<CAddr(Restr(Ed(1), AllBm))>>, <<>>, <<>>), Restr(Ed(1), AllBm)>>,
  <<AncO(20, Amt, 1, Ed(1), Ed(2), <<>>, <<>>), Ed(1)>>, <<AncO(20, Amt, 1, Ed(1), Ed(2), <<>>, <<>>), Ed(2)>>, <<AncO(0, Amt, 0, Ed(2), Ed(1), <<>>, <<>>), Ed(2)>>,
  <<FndO(Amt, 20, 1, Zero, Zero, FromInt(9), <<>>, <<>>), Acc(20)>>, <<DelO(0, Amt, Amt, 40, 1, 0, Ed(2)), Ed(2)>>,
  <<Both(Ed(1), Ed(2), 5), Ed(2)>>, <<Both(Ed(1), Acc(20), 5000), Ed(1)>>, <<Both(Acc(20), Ed(1), 5000), Acc(20)>> >>
KeySets == {<<1, 2, 3>>, <<2, 3>>, <<1>>}

Rec0 == [kind |-> "builder", p |-> 0, tx |-> [slot |-> T, net |-> 1, ctx |-> <<[k |-> "cmt"]>>, caps |-> <<>>, allot |-> <<>>, outs |-> <<Basic(Amt, Zero, <<CAddr(Ed(9))>>, <<>>)>>, ptag |-> -1, pdata |-> 0],
          ins |-> <<>>, cmt |-> T - 10, bic |-> <<>>, rew |-> <<>>, hasrew |-> 0, unl |-> <<>>]

\* ------------------------------------------------------- mana to give away ---
Mi(n) == Mul(FromInt(n), FromInt(1000000))
InSets == <<
  <<Basic(Amt, Mi(7), <<CAddr(Ed(1))>>, <<>>)>>,
  <<Basic(Amt, Mi(7), <<CAddr(Ed(1))>>, <<>>), AccO(20, Amt, Mi(5), 0, Ed(2), <<FtBlock(MaxTick)>>, <<>>)>>,
  <<AccO(0, Amt, Mi(5), 0, Ed(2), <<FtBlock(MaxTick)>>, <<>>), Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<>>)>>,
  <<Basic(Amt, Mi(3), <<CAddr(Imp(2))>>, <<>>), NftO(0, Amt, <<CAddr(Ed(1))>>, <<>>, <<>>)>>,
  <<Basic(Amt, Mi(3), <<CAddr(Imp(2))>>, <<>>), AccO(20, Amt, Mi(5), 0, Ed(2), <<>>, <<>>), AccO(0, Amt, Mi(2), 0, Ed(1), <<>>, <<>>), Basic(Amt, Mi(7), <<CAddr(Ed(1))>>, <<>>)>>,
  <<AncO(20, Amt, 1, Ed(1), Ed(2), <<>>, <<>>), DelO(0, Amt, Amt, 40, 1, 0, Ed(2))>>,
  <<Basic(Amt, MaxU64, <<CAddr(Ed(1))>>, <<>>)>> >>
\* mana of an output locked to an account until LockSlot + d
Locked(a, m, d) == Basic(Amt, m, <<CAddr(Acc(a)), CTime(T + 2 * PP(0).maxca + d)>>, <<>>)
OutSets == <<
  <<Basic(Amt, Zero, <<CAddr(Ed(9))>>, <<>>), AccO(20, Amt, Mi(1), 0, Ed(2), <<FtBlock(MaxTick)>>, <<>>), Locked(20, Zero, 1), Locked(20, One, 0)>>,
  <<AccO(51, Amt, Zero, 0, Ed(2), <<FtBlock(MaxTick)>>, <<>>), Locked(51, Mi(1), 1), NftO(0, Amt, <<CAddr(Ed(1))>>, <<>>, <<>>)>>,
  <<AccO(0, Amt, One, 0, Ed(2), <<>>, <<>>), AncO(20, Amt, 2, Ed(1), Ed(2), <<>>, <<>>), Locked(53, Mi(4), 1), FndO(Amt, 20, 1, Zero, Zero, FromInt(9), <<>>, <<>>)>>,
  <<Basic(Amt, Mi(6), <<CAddr(Ed(9))>>, <<>>), DelO(0, Amt, Amt, 40, 1, 0, Ed(2)), Locked(20, Mi(20), 1)>> >>
Rewards == {<<>>, <<Rew(1, Mi(2))>>, <<Rew(1, Sub(MaxU64, Mi(2))), Rew(2, Mi(1))>>}
Op(m, acc, mana, idx, ign) == [m |-> m, acc |-> acc, mana |-> mana, idx |-> idx, at |-> T, ign |-> ign]
Accs == {20, 51, 99}
Ops == {Op("allot", a, m, 0, <<>>) : a \in Accs, m \in {FromInt(7), Mi(2), Sub(MaxU64, One)}}
  \cup {Op("bound", 0, Zero, 0, g) : g \in {<<>>, <<20>>, <<51, 52>>}}
  \cup {Op("all", a, m, 0, <<>>) : a \in Accs, m \in {Zero, Mi(6)}}
  \cup {Op("store", 0, Zero, x, <<>>) : x \in 0..4}
  \cup {Op("min", a, FromInt(c), x, <<>>) : a \in Accs, x \in 0..2, c \in {0, 1, 3}}
  \cup {Op("left", 0, Zero, 0, <<>>)}
  \cup {Op("cost", a, c, 0, <<>>) : a \in {20, 99}, c \in {One, MaxU64}}

VARIABLES r, tg, keys, ops, b
vars == <<r, tg, keys, ops, b>>
ManaRec(i, o, w) ==
  [Rec0 EXCEPT !.ins = [n \in DOMAIN InSets[i] |-> In(n, T - Back * n, InSets[i][n])], !.tx.outs = OutSets[o], !.rew = w, !.hasrew = IF w = <<>> THEN 0 ELSE 1,
               !.tx.ctx = @ \o [n \in DOMAIN w |-> [k |-> "rew", idx |-> w[n].i - 1]]]
OwnerT(o) == Underlying(o.uc[1].a)
Init == \/ /\ Part # "mana" /\ r = Rec0 /\ tg = <<>> /\ keys \in KeySets /\ ops = <<>> /\ b = Begin(Rec0)
        \/ /\ Part # "unlocks" /\ keys \in {<<1, 2, 3>>, <<1>>} /\ ops = <<>>
           /\ \E i \in DOMAIN InSets, o \in DOMAIN OutSets, w \in Rewards :
                /\ \A k \in DOMAIN w : w[k].i <= Len(InSets[i])
                /\ r = ManaRec(i, o, w) /\ tg = [n \in DOMAIN InSets[i] |-> OwnerT(InSets[i][n])]
                /\ b = Begin(r)
AddIn == Part # "mana" /\ ops = <<>> /\ (tg = <<>> \/ r.tx.outs = Rec0.tx.outs) /\ Len(tg) < MaxIns /\ \E x \in DOMAIN Pool :
            LET n == Len(tg) + 1 IN
            /\ r' = [r EXCEPT !.ins = Append(@, In(n, T - Back, Pool[x][1]))] /\ tg' = Append(tg, Pool[x][2])
            /\ b' = Begin(r') /\ UNCHANGED <<keys, ops>>
Do == r.tx.outs # Rec0.tx.outs /\ Len(ops) < MaxOps /\ \E o \in Ops :
            /\ ops' = Append(ops, o) /\ b' = Step(b, tg, Range(keys), o) /\ UNCHANGED <<r, tg, keys>>
Next == AddIn \/ Do
Spec == Init /\ [][Next]_vars

Us == UnlocksFor(r, tg, Range(keys))
Consumed(j) == IF r.ins[j].out.t \in {"account", "anchor", "nft"} THEN InChain(r.ins[j]) ELSE <<>>
\* unlocks are found exactly if every owner is a known key, or a chain an earlier input consumes
Findable ==
  Unlockable(Us) <=> \A i \in DOMAIN tg : LET a == Underlying(tg[i]) IN
     CASE a.k \in {"ed", "imp"} -> a.n \in Range(keys)
       [] a.k \in {"acc", "anc", "nft"} -> \E j \in 1..(i - 1) : Consumed(j) # <<>> /\ <<ChainAddrKind(Consumed(j)[1]), Consumed(j)[2]>> = AKey(a)
       [] OTHER -> FALSE
SignsOnce == \A i, j \in DOMAIN Us : Us[i].k = "sig" /\ Us[j].k = "sig" /\ Us[i].key = Us[j].key => i = j
Accepted == UnlockLaw(r, tg, Us)

Latest == ops[Len(ops)]
Helped == ops # <<>> /\ Latest.m \in {"all", "store", "min"} /\ ~b.err
\* what is given away and what is left is what there was
Conserved ==
  LET v == Avail(b.r, T) w == Left(b.r, T) IN
  ~b.err /\ w.err = 0 => Add(ManaOut(b.r), Add(w.unbound, LET s == SetToSeq(w.bound) IN Sum([n \in DOMAIN s |-> s[n][2]]))) = Add(v.total, v.rew)
NothingLeft == Helped => Emptied(b, T, {})
\* the rules of the ledger are met: neither too much nor too little mana, none of an account gone
LedgerMana ==
  Helped => LET in == ManaIn(b.r) out == ManaOut(b.r) IN
    /\ in = out
    /\ \A i \in DOMAIN b.r.ins, j \in DOMAIN b.r.tx.outs :
         BoundTo(b.r.ins[i]) # 0 /\ b.r.tx.outs[j].t = "account" /\ b.r.tx.outs[j].id = BoundTo(b.r.ins[i]) => ManaLockFailed(b.r, i, b.r.tx.outs[j], in, out) = {}
\* the issuer can afford the block
Afforded ==
  Helped /\ Latest.m = "min" /\ Latest.acc # Holder(b.r, Latest.idx) =>
    LET S == {k \in DOMAIN b.r.tx.allot : b.r.tx.allot[k].acc = Latest.acc} c == Cost(b, tg, Range(keys), Latest.mana, Latest.acc) IN
    c.err = 0 => Leq(c.v, Sum([k \in DOMAIN b.r.tx.allot |-> IF k \in S THEN b.r.tx.allot[k].mana ELSE Zero])) \/ c.v = Zero
\* steps only add
OnlyAdds == [][~b'.err => \A k \in DOMAIN b.r.tx.allot : Leq(b.r.tx.allot[k].mana, b'.r.tx.allot[k].mana)]_vars
Emit == (tg # <<>> /\ (~Whole \/ (IF r.tx.outs = Rec0.tx.outs THEN Len(tg) = MaxIns ELSE Len(ops) = MaxOps))) => PrintT("CASE " \o ToJson([kind |-> IF r.tx.outs = Rec0.tx.outs THEN "unlocks" ELSE "mana", r |-> r, tg |-> tg, keys |-> keys, ops |-> ops, clone |-> IF Len(ops) >= 2 THEN Len(ops) - 1 ELSE -1, at |-> T]))
=============================================================================
