---------------------------- MODULE CasesLedger -----------------------------
(* Families of cases around the rules of the ledger.                           *)
EXTENDS Cases

Ints(a, b) == SubSeq([i \in 1..(b - a + 1) |-> a + i - 1], 1, b - a + 1)
Pairs(s, t) == Flat([i \in DOMAIN s |-> [j \in DOMAIN t |-> <<s[i], t[j]>>]])
YN == <<FALSE, TRUE>>
NY == <<TRUE, FALSE>>
Caps0 == <<>>
CapAll == <<63>>
CapWithout(bits) == LET n == 63 - SumInts([i \in DOMAIN bits |-> Pow2I(bits[i])]) IN IF n = 0 THEN <<>> ELSE <<n>>
CapOnly(bits) == CapWithout(<<>>)[1] - 63 + SumInts([i \in DOMAIN bits |-> Pow2I(bits[i])])
CapsOf(n) == IF n = 0 THEN <<>> ELSE <<n>>

\* ===================================================== V01 deposit returns ===
T_sdr == << <<0, 1, 3>>,
            <<Ed(3), Ed(4), Restr(Ed(3), AllBm), Acc(20), Multi(1, <<Sub1(Ed(3), 1), Sub1(Ed(5), 1)>>)>>,  \* who A pays back
            <<"none", "E3", "E4", "R3">>,                        \* who B pays back
            <<"A", "E3", "E4", "R3">>,                           \* the first output pays
            <<"right", "right-1", "a", "b", "max", "right+1">>,
            <<"plain", "mana", "tag", "time", "nft">>,
            <<"right", "none", "right-1", "E3", "E4", "R3">>,    \* the second output pays the deposit of B to
            <<"none", "before", "after">>,                         \* an input of key 3
            <<Ed(1), Ed(3)>>,                                      \* owner of A
            <<0, 1>>, <<0, 7>> >>                                  \* deposits, relative
B_sdr(v) ==
  LET p == v[1]  T == EpochStart(PP(p), 3)  rb == v[3]
      m == AddI(MinDeposit(PP(p), PlainOut(Multi(1, <<Sub1(Ed(3), 1), Sub1(Ed(5), 1)>>))), 1)
      ad(s) == CASE s = "E3" -> Ed(3) [] s = "E4" -> Ed(4) [] s = "R3" -> Restr(Ed(3), AllBm) [] s = "A" -> v[2]
      A == AddI(m, v[10])
      B == IF rb = "none" THEN Zero ELSE AddI(m, v[11])
      joint == rb # "none" /\ AKey(ad(rb)) = AKey(v[2])         \* both pay the same address
      right == IF joint THEN Add(A, B) ELSE A
      xa == CASE v[5] = "right" -> right [] v[5] = "right-1" -> AddI(right, -1) [] v[5] = "right+1" -> AddI(right, 1) [] v[5] = "a" -> A [] v[5] = "b" -> B [] v[5] = "max" -> IF Lt(A, B) THEN B ELSE A
      who == ad(v[4])
      X == CASE v[6] \in {"plain", "mana"} -> Basic(xa, Zero, <<CAddr(who)>>, <<>>)
             [] v[6] = "tag" -> Basic(xa, Zero, <<CAddr(who)>>, <<FtTag(1)>>)
             [] v[6] = "time" -> Basic(xa, Zero, <<CAddr(who), CTime(1)>>, <<>>)
             [] v[6] = "nft" -> NftO(0, xa, <<CAddr(who)>>, <<>>, <<>>)
      Y == CASE v[7] = "none" \/ rb = "none" -> <<>>
             [] v[7] = "right" -> OptS(~joint, Basic(B, Zero, <<CAddr(ad(rb))>>, <<>>))
             [] v[7] = "right-1" -> <<Basic(AddI(B, -1), Zero, <<CAddr(ad(rb))>>, <<>>)>>
             [] OTHER -> <<Basic(B, Zero, <<CAddr(ad(v[7]))>>, <<>>)>>
      account == v[2].k = "acc"
      ins == OptS(account, In(1, T, AccO(20, Amt, Zero, 0, Ed(1), <<>>, <<>>)))
             \o OptS(v[8] = "before", In(2, T, Basic(Amt, Zero, <<CAddr(Ed(3))>>, <<>>)))
             \o <<In(3, T, Basic(Amt, Zero, <<CAddr(v[9]), CSdr(v[2], A)>>, <<>>))>>
             \o OptS(rb # "none", In(4, T, Basic(Amt, Zero, <<CAddr(Ed(2)), CSdr(ad(rb), B)>>, <<>>)))
             \o OptS(v[8] = "after", In(5, T, Basic(Amt, Zero, <<CAddr(Ed(3))>>, <<>>)))
      outs == OptS(xa # Zero, X) \o Y \o OptS(account, AccO(20, Amt, Zero, 0, Ed(1), <<>>, <<>>))
  IN IF rb = "none" /\ (v[11] # 0 \/ v[5] \in {"b", "max"} \/ v[7] # "right") THEN Skip
     ELSE Finish("sdr", p, T, -1, ins, outs, [Def EXCEPT !.sink = IF v[6] = "mana" /\ xa # Zero THEN 1 ELSE 0])

\* three returns to one address, paid in one output or several
T_sdr3 == << <<0, 3>>, <<2, 3, 4>>, <<"one", "each", "split", "short">>, <<0, 1, 2, 3, 4>> >>
B_sdr3(v) ==
  LET p == v[1]  n == v[2]  T == EpochStart(PP(p), 2)
      m == AddI(MinDeposit(PP(p), PlainOut(Ed(3))), 1)
      tot == MulSmall(m, n)
      ins == [i \in 1..n |-> In(i, T, Basic(Amt, Zero, <<CAddr(Ed(1)), CSdr(Ed(3), m)>>, <<>>))]
      pay(a) == Basic(a, Zero, <<CAddr(Ed(3))>>, <<>>)
      \* v[4]: how much is missing: that many returns, the last by one token only
      missing == IF v[4] > n THEN One ELSE MulSmall(m, v[4])
      outs == CASE v[3] = "one" -> IF missing = tot THEN <<>> ELSE <<pay(Monus(tot, missing))>>
                [] v[3] = "each" -> [i \in 1..(n - Min2(v[4], n)) |-> pay(m)]
                [] v[3] = "split" -> IF Lt(Monus(tot, missing), Add(m, m)) THEN <<>> ELSE <<pay(m), pay(Sub(Monus(tot, missing), m))>>
                [] v[3] = "short" -> <<pay(AddI(tot, -1))>>
  IN Finish("sdr3", p, T, -1, ins, outs, Def)

\* base tokens in and out, no fund: sums around the 64-bit range
AmtsIn == <<One, FromInt(2), U63, AddI(MaxU64, -1), MaxU64>>
AmtsOut == <<Zero, One, FromInt(2), AddI(U63, -1), U63, AddI(U63, 1), AddI(MaxU64, -1), MaxU64>>
T_amounts == <<AmtsIn, <<Zero>> \o AmtsIn, AmtsOut, AmtsOut, <<Zero, One>> >>
B_amounts(v) ==
  LET ba(a) == Basic(a, Zero, <<CAddr(Ed(1))>>, <<>>)
      T == EpochStart(PP(3), 2)
      ins == <<In(1, T, ba(v[1]))>> \o OptS(v[2] # Zero, In(2, T, ba(v[2])))
      outs == OptS(v[3] # Zero, ba(v[3])) \o OptS(v[4] # Zero, ba(v[4])) \o OptS(v[5] # Zero, ba(v[5]))
  IN IF Lt(MaxU64, Add(v[1], v[2])) THEN Skip      \* more than there can be
     ELSE Finish("amounts", 3, T, -1, ins, outs, [Def EXCEPT !.fund = FALSE, !.caps = CapAll])

\* ======================================================= V02 native tokens ===
T_tokens == << <<"change", "new", "destroy", "none">>,
               <<Zero, FromInt(5), AddI(MaxU256, -6)>>,        \* minted before
               YN, YN,                                        \* tokens held by the foundry itself
               Pairs(<<1, 0, 3>>, <<1, 0, 2, 4>>),            \* tokens in, out
               Pairs(<<0, -1, 1, 2>>, <<0, -1, 1, 2>>),       \* minted, melted: off by
               <<2, 0>>,                                      \* melted before
               <<17, 0, 1, 16, 46>>,                          \* capabilities
               <<0, 1>> >>                                    \* maximum supply changed
B_tokens(v) ==
  LET p == 0  T == EpochStart(PP(p), 1)  act == v[1]
      in == v[5][1]  out == v[5][2]
      melted == IF act = "new" THEN Zero ELSE FromInt(v[7])
      minted == CASE act = "destroy" -> AddI(Add(melted, FromInt(in)), v[6][1]) [] act = "new" -> Zero [] OTHER -> Add(v[2], Add(melted, FromInt(in)))
      minted2 == AddI(Add(minted, FromInt(Max2(out - (IF act = "new" THEN 0 ELSE in), 0))), v[6][1])
      melted2 == AddI(Add(melted, FromInt(IF act = "new" THEN 0 ELSE Max2(in - out, 0))), v[6][2])
      max == MaxU256
      tok(n) == FtTok(20, 1, FromInt(n))
      hasIn == act \in {"change", "destroy"}  hasOut == act \in {"change", "new"}
      inF == hasIn /\ v[3]  outF == hasOut /\ v[4]
      looseIn == IF act = "new" THEN 0 ELSE in
      looseOut == IF act = "destroy" THEN out - 1 ELSE out
      ins == <<In(1, T, AccO(20, Amt, Zero, IF hasIn THEN 1 ELSE 0, Ed(1), <<>>, <<>>))>>
             \o OptS(hasIn, In(2, T, FndO(Amt, 20, 1, minted, melted, max, OptS(inF /\ in > 0, tok(in)), <<>>)))
             \o OptS(~inF /\ looseIn > 0, In(3, T, Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<tok(looseIn)>>)))
      outs == <<AccO(20, Amt, Zero, IF hasIn \/ hasOut THEN 1 ELSE 0, Ed(1), <<>>, <<>>)>>
              \o OptS(hasOut, FndO(Amt, 20, 1, minted2, melted2, AddI(max, 0 - v[9]), OptS(outF /\ out > 0, tok(out)), <<>>))
              \o OptS(~outF /\ looseOut > 0, Basic(Amt, Zero, <<CAddr(Ed(2))>>, <<tok(looseOut)>>))
  IN IF (act \in {"none", "destroy"} /\ (v[6][2] # 0 \/ v[4] \/ v[9] # 0)) \/ (act = "none" /\ v[6][1] # 0) \/ (act \in {"none", "new"} /\ (v[3] \/ v[2] # Zero \/ v[7] # 2)) \/ (act = "destroy" /\ v[2] # Zero)
     THEN Skip
     ELSE Finish("tokens-" \o act, p, T, -1, ins, outs, [Def EXCEPT !.caps = CapsOf(v[8])])

\* sums of tokens around the 256-bit range, two tokens of different foundries
T_tokover == << <<One, U255, MaxU256>>, <<Zero, One, U255, MaxU256>>,
                <<Zero, One, U255, MaxU256>>, <<Zero, One, FromInt(2), U255>>, <<0, 1>>, <<1, 2>>, YN >>
B_tokover(v) ==
  LET T == EpochStart(PP(0), 1)
      tb(a, sn) == Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<FtTok(20, sn, a)>>)
      ins == <<In(1, T, tb(v[1], 1))>> \o OptS(v[2] # Zero, In(2, T, tb(v[2], 1))) \o OptS(v[7], In(3, T, tb(FromInt(2), 2)))
      outs == OptS(v[3] # Zero, tb(v[3], 1)) \o OptS(v[4] # Zero, tb(v[4], v[6]))
  IN Finish("tokover", 0, T, -1, ins, outs, [Def EXCEPT !.caps = CapsOf(v[5])])

\* ================================================================ V03 mana ===
ManaT(pp) == EpochStart(pp, 7) + 3
T_mana == << <<0, 1, 2, 3>>,
             <<"0", "-1", "prev", "start7", "end6", "start6", "e5", "e2", "genesis", "+1">>,     \* created
             <<"min", "min+1", "amt", "big">>,
             <<Zero, One, FromInt(1000003), Pow2(50)>>,
             <<"none", "one", "two">>,
             <<0, -1, 1>>,
             <<0, 2, 61>>,
             YN,                                                   \* a claimed reward
             <<"basic", "account", "nft", "none">> >>
B_mana(v) ==
  LET p == v[1]  pp == PP(p)  T == ManaT(pp)
      s == CASE v[2] = "0" -> T [] v[2] = "-1" -> T - 1 [] v[2] = "prev" -> T - 5 [] v[2] = "start7" -> EpochStart(pp, 7) [] v[2] = "end6" -> EpochEnd(pp, 6)
             [] v[2] = "start6" -> EpochStart(pp, 6) [] v[2] = "e5" -> EpochStart(pp, 5) + 1 [] v[2] = "e2" -> EpochEnd(pp, 2) [] v[2] = "genesis" -> pp.genesis + 1 [] v[2] = "+1" -> T + 1
      mk(a) == CASE v[9] = "basic" -> Basic(a, v[4], <<CAddr(Ed(1))>>, <<>>)
                 [] v[9] = "account" -> AccO(20, a, v[4], 0, Ed(1), <<>>, <<>>)
                 [] v[9] = "nft" -> [NftO(20, a, <<CAddr(Ed(1))>>, <<>>, <<>>) EXCEPT !.mana = v[4]]
                 [] v[9] = "none" -> Basic(a, v[4], <<CAddr(Ed(1)), CTime(1)>>, <<>>)
      m == Add(MinDeposit(pp, mk(Zero)), IF p = 3 THEN One ELSE Zero)
      a == CASE v[3] = "min" -> m [] v[3] = "min+1" -> AddI(m, 1) [] v[3] = "amt" -> Amt [] v[3] = "big" -> <<3, 1415, 9265, 35>>
      ins == <<In(1, s, mk(a))>> \o OptS(v[8], In(2, T, DelO(21, Amt, Amt, 30, 1, 2, Ed(1))))
      outs == CASE v[9] = "account" -> <<AccO(20, a, Zero, 0, Ed(1), <<>>, <<>>)>> [] v[9] = "nft" -> <<NftO(20, a, <<CAddr(Ed(1))>>, <<>>, <<>>)>> [] OTHER -> <<>>
      \* a timelock needs a commitment
      c == IF v[8] \/ v[9] = "none" THEN T - pp.minca ELSE -1
  IN Finish("mana", p, T, c, ins, outs,
            [Def EXCEPT !.allot = CASE v[5] = "none" -> <<>> [] v[5] = "one" -> <<Allot(30, One)>> [] v[5] = "two" -> <<Allot(30, One), Allot(31, FromInt(2))>>,
                        !.dmana = v[6], !.caps = CapsOf(v[7]), !.rew = OptS(v[8], Rew(2, FromInt(12345)))])

\* ============================================================= V04 unlocks ===
\* five inputs that open things, and the target
UnlAlphabet ==
  <<Sig(1), Sig(2), Sig(3), BadSig(3, 1), BadSig(3, 2), BadSig(3, 3)>>
  \o [i \in 1..7 |-> RefU("ref", i - 1)] \o [i \in 1..7 |-> RefU("acc", i - 1)] \o [i \in 1..7 |-> RefU("anc", i - 1)] \o [i \in 1..7 |-> RefU("nft", i - 1)]
  \o <<EmptyU>>
M12 == Multi(2, <<Sub1(Ed(4), 1), Sub1(Ed(5), 1)>>)
M3A == Multi(2, <<Sub1(Ed(6), 1), Sub1(Acc(20), 1)>>)
Targets == <<Ed(1), Ed(2), Ed(3), Imp(1), Imp(3), Acc(20), Acc(23), Nft(21), Anc(22), Restr(Ed(1), <<>>), Restr(Acc(20), AllBm), Restr(Nft(21), AllBm), M12, Restr(M12, AllBm), M3A,
             Acc(21), Nft(20), Nft(22)>>
T_unlock == <<Targets,
              Ints(1, Len(UnlAlphabet) + 4),
              <<"state", "gov", "gone">>,               \* what the anchor does
              <<"stay", "gone">>,                       \* account and NFT
              <<5, 0, 2>> >>                            \* position of the target
B_unlock(v) ==
  LET p == 1  T == EpochStart(PP(p), 3)  a == v[1]
      tgt == In(9, T, Basic(Amt, Zero, <<CAddr(a)>>, <<>>))
      base == <<In(1, T, Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<>>)),
                In(2, T, AccO(20, Amt, Zero, 0, Ed(1), <<>>, <<>>)),
                In(3, T, NftO(21, Amt, <<CAddr(Ed(2))>>, <<>>, <<>>)),
                In(4, T, AncO(22, Amt, 4, Ed(1), Ed(1), <<>>, <<>>)),
                In(5, T, Basic(Amt, Zero, <<CAddr(M12)>>, <<>>))>>
      pos == v[5]
      ins == SubSeq(base, 1, pos) \o <<tgt>> \o SubSeq(base, pos + 1, 5)
      stay == v[4] = "stay"
      implicit == a.k = "imp"
      outs == OptS(stay, AccO(20, Amt, Zero, 0, Ed(1), <<>>, <<>>)) \o OptS(stay, NftO(21, Amt, <<CAddr(Ed(2))>>, <<>>, <<>>))
              \o OptS(v[3] # "gone", AncO(22, Amt, IF v[3] = "state" THEN 5 ELSE 4, Ed(1), Ed(1), <<>>, <<>>))
              \o OptS(implicit, AccO(59, Amt, Zero, 0, Ed(1), <<FtBlock(MaxTick)>>, <<>>))
      r == Finish("unlock", p, T, 50, ins, outs, [Def EXCEPT !.caps = CapAll, !.bic = OptS(implicit, Bic(59, 0))])
      q == pos + 1
      n == Len(UnlAlphabet)
      alt == CASE v[2] <= n -> UnlAlphabet[v[2]]
               [] v[2] = n + 1 -> MultiU(<<Sig(4), Sig(5)>>)
               [] v[2] = n + 2 -> MultiU(<<Sig(5), Sig(4)>>)
               [] v[2] = n + 3 -> MultiU(LET s == a IN IF s.k = "multi" THEN [m \in DOMAIN s.subs |-> IF s.subs[m].a.k = "acc" THEN RefU("acc", IF pos = 0 THEN 2 ELSE 1) ELSE Sig(s.subs[m].a.n)] ELSE <<Sig(6), EmptyU>>)
               [] v[2] = n + 4 -> r.unl[q]
      r2 == [r EXCEPT !.unl[q] = alt]
  IN IF UnlockFailed(r2.unl) # {} THEN Skip ELSE r2

\* thresholds and weights
MultiW(n, w) == [i \in 1..n |-> CASE w = "ones" -> 1 [] w = "first" -> IF i = 1 THEN 5 ELSE 1 [] w = "up" -> i [] w = "big" -> 255]
T_multi == << <<2, 3, 5, 10>>, <<"ones", "first", "up", "big">>, <<"1", "sum", "sum-1", "half", "half+1">>,
              <<"all", "no first", "no last", "only first", "only last", "none", "half", "short", "long", "swapped", "wrong", "bad", "chain", "outer", "nested">>,
              <<"none", "ref", "again", "ref2">>, YN >>
B_multi(v) ==
  LET p == 0  T == EpochStart(PP(p), 1)  n == v[1]
      w == MultiW(n, v[2])  tot == SumInts(w)
      thr == CASE v[3] = "1" -> 1 [] v[3] = "sum" -> tot [] v[3] = "sum-1" -> tot - 1 [] v[3] = "half" -> tot \div 2 [] v[3] = "half+1" -> tot \div 2 + 1
      m == Multi(thr, [i \in 1..n |-> Sub1(Ed(20 + i), w[i])])
      a == IF v[6] THEN Restr(m, AllBm) ELSE m
      key(i) == m.subs[i].a.n
      us == CASE v[4] = "no first" -> [i \in 1..n |-> IF i = 1 THEN EmptyU ELSE Sig(key(i))]
              [] v[4] = "no last" -> [i \in 1..n |-> IF i = n THEN EmptyU ELSE Sig(key(i))]
              [] v[4] = "only first" -> [i \in 1..n |-> IF i # 1 THEN EmptyU ELSE Sig(key(i))]
              [] v[4] = "only last" -> [i \in 1..n |-> IF i # n THEN EmptyU ELSE Sig(key(i))]
              [] v[4] = "none" -> [i \in 1..n |-> EmptyU]
              [] v[4] = "half" -> [i \in 1..n |-> IF i % 2 = 0 THEN EmptyU ELSE Sig(key(i))]
              [] v[4] = "short" -> [i \in 1..(n - 1) |-> Sig(key(i))]
              [] v[4] = "long" -> [i \in 1..(n + 1) |-> IF i > n THEN EmptyU ELSE Sig(key(i))]
              [] v[4] = "swapped" -> [i \in 1..n |-> Sig(key(IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i))]
              [] v[4] = "wrong" -> [i \in 1..n |-> Sig(IF i = 1 THEN 40 ELSE key(i))]
              [] v[4] = "bad" -> [i \in 1..n |-> IF i = n THEN BadSig(key(i), 1) ELSE Sig(key(i))]
              [] v[4] = "chain" -> [i \in 1..n |-> IF i = n THEN RefU("acc", 0) ELSE Sig(key(i))]
              [] v[4] = "outer" -> [i \in 1..n |-> IF i = 1 THEN RefU("ref", 0) ELSE Sig(key(i))]
              [] v[4] = "nested" -> [i \in 1..n |-> IF i = 1 THEN MultiU(<<Sig(41), Sig(42)>>) ELSE Sig(key(i))]
              [] OTHER -> [i \in 1..n |-> Sig(key(i))]
      mo(nn) == In(nn, T, Basic(Amt, Zero, <<CAddr(a)>>, <<>>))
      ins == <<In(1, T, Basic(Amt, Zero, <<CAddr(Ed(20 + 1))>>, <<>>)), mo(2)>> \o OptS(v[5] # "none", mo(3)) \o OptS(v[5] = "ref2", mo(4))
      r == Finish("multi", p, T, -1, ins, <<>>, [Def EXCEPT !.fund = TRUE])
      first == IF v[4] = "outer" THEN Sig(20 + 1) ELSE Sig(20 + 1)
      \* the key of the first input cannot sign again: refer to it
      fix(u, i) == IF u.k = "sig" /\ u.key = 21 /\ v[4] # "outer" THEN RefU("ref", 0) ELSE u
      mu == MultiU([i \in DOMAIN us |-> fix(us[i], i)])
      unl == <<first, mu>> \o OptS(v[5] = "ref", RefU("ref", 1)) \o OptS(v[5] = "again", mu) \o (IF v[5] = "ref2" THEN <<RefU("ref", 1), RefU("ref", 2)>> ELSE <<>>) \o <<Sig(8)>>
  IN IF thr < 1 \/ thr > tot \/ (UnlockFailed(unl) # {} /\ v[4] # "nested") THEN Skip ELSE [r EXCEPT !.unl = unl]

\* =========================================================== V05 timelocks ===
SlotRel(pp, c, s) ==
  CASE s = "none" -> 0 [] s = "1" -> 1
    [] s = "f-1" -> FutureBounded(pp, c) - 1 [] s = "f" -> FutureBounded(pp, c) [] s = "f+1" -> FutureBounded(pp, c) + 1
    [] s = "mid" -> (FutureBounded(pp, c) + PastBounded(pp, c)) \div 2
    [] s = "p-1" -> PastBounded(pp, c) - 1 [] s = "p" -> PastBounded(pp, c) [] s = "p+1" -> PastBounded(pp, c) + 1
    [] s = "max" -> MaxTick
Slots == <<"none", "1", "f-1", "f", "f+1", "mid", "p-1", "p", "p+1", "max">>
T_slots == << <<0, 1, 2>>, <<"basic", "nft", "nft gone">>, Slots, Slots, NY, <<"right", "owner", "return", "both", "first owner">>,
              <<"distinct", "same", "restr">>, <<"none", "to return", "other">> >>
B_slots(v) ==
  LET p == v[1]  pp == PP(p)  c == 60  T == EpochStart(pp, 3) + 5
      own == Ed(1)
      ret == CASE v[7] = "distinct" -> Ed(2) [] v[7] = "same" -> Ed(1) [] v[7] = "restr" -> Restr(Ed(2), AllBm)
      m == MinDeposit(pp, PlainOut(Restr(Ed(2), AllBm)))
      uc == <<CAddr(own)>> \o OptS(v[8] # "none", CSdr(IF v[8] = "other" THEN Ed(4) ELSE ret, m))
            \o OptS(v[3] # "none", CTime(SlotRel(pp, c, v[3]))) \o OptS(v[4] # "none", CExp(ret, SlotRel(pp, c, v[4])))
      o == IF v[2] = "basic" THEN Basic(Amt, Zero, uc, <<>>) ELSE NftO(20, Amt, uc, <<>>, <<>>)
      in == In(1, T, o)
      owner2 == In(2, T, Basic(Amt, Zero, <<CAddr(own)>>, <<>>))
      ins == IF v[6] \in {"both", "first owner"} THEN <<owner2, in>> ELSE <<in>>
      outs == OptS(v[2] = "nft", NftO(20, Amt, <<CAddr(Ed(5))>>, <<>>, <<>>)) \o OptS(v[8] # "none", Basic(m, Zero, <<CAddr(IF v[8] = "other" THEN Ed(4) ELSE ret)>>, <<>>))
      r == Finish("slots", p, T, IF v[5] THEN c ELSE -1, ins, outs, [Def EXCEPT !.caps = CapAll])
      k == Underlying(ret).n
      unl == CASE v[6] = "right" -> r.unl
               [] v[6] = "owner" -> <<Sig(1), Sig(8)>> [] v[6] = "return" -> <<Sig(k), Sig(8)>>
               [] v[6] = "both" -> <<Sig(1), IF k = 1 THEN RefU("ref", 0) ELSE Sig(k), Sig(8)>>
               [] v[6] = "first owner" -> <<Sig(1), RefU("ref", 0), Sig(8)>>
  IN IF v[4] = "none" /\ (v[7] # "distinct" \/ v[6] = "return" \/ v[8] = "to return") THEN Skip ELSE [r EXCEPT !.unl = unl]

\* ============================================================== V06 chains ===
T_anchor == << <<"state", "gov", "gone">>, <<"same", "removed", "added">>,
               <<0, -1, 1>>, <<0, -1, 1>>, YN, YN,        \* state index, amount, controllers: off by
               <<"same", "changed", "removed", "added">>, <<"same", "changed", "removed", "added">>, <<"same", "changed", "removed", "added">>,
               YN, <<8, 0, 55, 63>> >>
FtPair(kind, x) ==   \* before and after
  CASE x = "same" -> <<<<kind[1]>>, <<kind[1]>>>> [] x = "changed" -> <<<<kind[1]>>, <<kind[2]>>>> [] x = "removed" -> <<<<kind[1]>>, <<>>>> [] x = "added" -> <<<<>>, <<kind[1]>>>>
B_anchor(v) ==
  LET p == 0  T == EpochStart(PP(p), 1)
      me == FtPair(<<FtMeta(1), FtMeta(2)>>, IF v[2] # "same" /\ v[1] = "gov" THEN v[2] ELSE v[7])
      st == FtPair(<<FtState(1), FtState(2)>>, IF v[2] # "same" /\ v[1] = "state" THEN v[2] ELSE v[8])
      im == FtPair(<<FtMeta(3), FtMeta(4)>>, v[9])
      ins == <<In(1, T, AncO(22, Amt, 4, Ed(1), Ed(2), me[1] \o st[1], im[1]))>>
      outs == OptS(v[1] # "gone", AncO(22, AddI(Amt, v[4]), (IF v[1] = "state" THEN 5 ELSE 4) + v[3], IF v[5] THEN Ed(3) ELSE Ed(1), IF v[6] THEN Ed(3) ELSE Ed(2), me[2] \o st[2], im[2]))
      r == Finish("anchor", p, T, -1, ins, outs, [Def EXCEPT !.caps = CapsOf(v[11])])
      \* whoever may unlock it, or the other
      k == IF r.unl[1].k = "sig" THEN r.unl[1].key ELSE 1
  IN IF v[1] = "gone" /\ (v[3] # 0 \/ v[4] # 0 \/ v[5] \/ v[6]) THEN Skip
     ELSE [r EXCEPT !.unl = <<Sig(IF v[10] THEN 3 - k ELSE k), Sig(8)>>]

\* immutable parts of all chains, and their identifiers
ChainKinds == <<"account", "anchor", "nft", "foundry">>
T_chain == <<ChainKinds,  <<"keep", "gone", "fresh id", "other id", "twice", "another kind", "born", "born with id">>,
             <<"same", "changed", "removed", "added", "none">>, <<"same", "changed", "removed", "added", "none">>,
             <<63, 0, 4, 8, 16, 32, 59, 55, 47, 31>>, YN >>
B_chain(v) ==
  LET p == 0  T == EpochStart(PP(p), 1)  k == v[1]
      im == IF v[3] = "none" THEN <<<<>>, <<>>>> ELSE FtPair(<<FtMeta(3), FtMeta(4)>>, v[3])
      is == IF v[4] = "none" \/ k = "foundry" THEN <<<<>>, <<>>>> ELSE FtPair(<<FtIssuer(Ed(1)), FtIssuer(Ed(3))>>, v[4])
      imf(i) == is[i] \o im[i]
      mk(id, i) == CASE k = "account" -> AccO(id, Amt, Zero, 0, Ed(1), <<>>, imf(i))
                     [] k = "anchor" -> AncO(id, Amt, 0, Ed(1), Ed(1), <<>>, imf(i))
                     [] k = "nft" -> NftO(id, Amt, <<CAddr(Ed(1))>>, <<>>, imf(i))
                     [] k = "foundry" -> FndO(Amt, 30, IF id = 0 THEN 1 ELSE id, Zero, Zero, FromInt(9), <<>>, imf(i))
      acc(fc) == AccO(30, Amt, Zero, fc, Ed(1), <<>>, <<>>)
      known == v[6]           \* the consumed output already carries its identifier
      id == IF k = "foundry" THEN 7 ELSE IF known THEN 20 ELSE Own(1)
      in == In(1, T, mk(IF known \/ k = "foundry" THEN id ELSE 0, 1))
      before == IF v[2] \in {"born", "born with id"} THEN <<>> ELSE <<in>>
      alien == IF k = "nft" THEN AccO(id, Amt, Zero, 0, Ed(1), <<>>, <<>>) ELSE NftO(id, Amt, <<CAddr(Ed(1))>>, <<>>, <<>>)
      after == CASE v[2] = "keep" -> <<mk(id, 2)>> [] v[2] = "gone" -> <<>> [] v[2] = "fresh id" -> <<mk(0, 2)>> [] v[2] = "other id" -> <<mk(25, 2)>>
                 [] v[2] = "twice" -> <<mk(id, 2), mk(id, 2)>> [] v[2] = "another kind" -> <<alien>> [] v[2] = "born" -> <<mk(0, 2)>> [] v[2] = "born with id" -> <<mk(25, 2)>>
      fnd == k = "foundry"
      fc1 == IF v[2] = "born" /\ fnd THEN 0 ELSE 7
      born == Cardinality({i \in DOMAIN after : after[i].t = "foundry" /\ after[i].sn # 7})
      fc2 == fc1 + born
      ins == OptS(fnd, In(2, T, acc(fc1))) \o before
      outs == OptS(fnd, acc(fc2)) \o after
  IN Finish("chain-" \o k, p, T, -1, ins, outs, [Def EXCEPT !.caps = CapsOf(v[5])])

\* ==================================================== V07 foundry counters ===
T_counter == << <<"known", "first move", "born", "gone", "implicit">>,
                <<0, 1, 5>>,                               \* counter before
                <<"own", "foreign", "foreign known">>,     \* account of the second new foundry
                <<0, -1, 1, 2>>,                           \* counter after: off by
                <<1, 0, 2, 3>>, <<0, 1, 2, 3>>,            \* serials of two new foundries, relative; 0: none
                YN, YN >>                                  \* an old foundry goes along; account output after the foundries
B_counter(v) ==
  LET p == 1  pp == PP(p)  T == EpochStart(pp, 4)  c == T - pp.minca  st == v[1]
      fc == IF st \in {"born", "implicit"} THEN 0 ELSE v[2]
      acc == IF st = "known" \/ st = "gone" THEN 20 ELSE Own(1)
      oldF == FndO(Amt, acc, fc, Zero, Zero, FromInt(9), <<>>, <<>>)
      inAcc == CASE st = "implicit" -> Basic(Amt, Zero, <<CAddr(Imp(1))>>, <<>>)
                 [] OTHER -> AccO(IF st = "first move" THEN 0 ELSE acc, Amt, Zero, fc, Ed(1), <<>>, <<>>)
      other == AccO(40, Amt, Zero, 0, Ed(1), <<>>, <<>>)
      ins == OptS(st # "born", In(1, T, inAcc)) \o OptS(v[3] = "foreign known", In(2, T, other)) \o OptS(v[7], In(3, T, oldF))
      fnd(a, sn) == FndO(Amt, a, sn, Zero, Zero, FromInt(9), <<>>, <<>>)
      acc2 == CASE v[3] = "own" -> acc [] OTHER -> 40
      fs == OptS(v[5] # 0, fnd(acc, fc + v[5])) \o OptS(v[6] # 0, fnd(acc2, IF acc2 = 40 THEN v[6] ELSE fc + v[6])) \o OptS(v[7], oldF)
      news == (IF v[5] # 0 THEN 1 ELSE 0) + (IF v[6] # 0 /\ acc2 # 40 THEN 1 ELSE 0)
      fcOut == Max2(fc + (IF st \in {"born", "implicit"} THEN 0 ELSE news) + v[4], 0)
      outAcc == AccO(IF st = "born" THEN 0 ELSE acc, Amt, Zero, fcOut, Ed(1), OptS(st = "implicit", FtBlock(MaxTick)), <<>>)
      others == OptS(v[3] = "foreign known", [other EXCEPT !.fc = IF v[6] # 0 THEN 1 ELSE 0])
      as == OptS(st # "gone", outAcc) \o others
      r == Finish("counter", p, T, c, ins, IF v[8] THEN fs \o as ELSE as \o fs, [Def EXCEPT !.caps = CapsOf(4), !.bic = OptS(st = "implicit", Bic(acc, 0)),
                  !.sink = IF st = "implicit" THEN (IF v[8] THEN Len(fs) + 1 ELSE 1) ELSE 0])
  IN IF (v[7] /\ (fc = 0 \/ st \in {"born", "implicit"})) \/ (st \in {"born", "implicit"} /\ v[2] # 0) \/ (st = "gone" /\ v[4] # 0) THEN Skip ELSE r

\* ======================================================= V08 block issuers ===
ExpRel(pp, c, s) ==
  CASE s = "c-1" -> c - 1 [] s = "c" -> c [] s = "c+1" -> c + 1 [] s = "p-1" -> PastBounded(pp, c) - 1 [] s = "p" -> PastBounded(pp, c) [] s = "p+1" -> PastBounded(pp, c) + 1
    [] s = "1" -> 1 [] s = "0" -> 0 [] s = "max" -> MaxTick [] s = "f" -> FutureBounded(pp, c)
Exps == <<"none", "0", "1", "c-1", "c", "c+1", "f", "p-1", "p", "p+1", "max">>
T_issuer == << <<0, 1>>, <<"move", "gone", "implicit", "born">>, Exps, <<"right">> \o Exps, <<"0", "none", "-1", "5", "other">>, <<"yes", "no", "unresolved">>, <<4, 0>>, YN >>
B_issuer(v) ==
  LET p == v[1]  pp == PP(p)  c == 80  T == EpochStart(pp, 3)  act == v[2]
      id == IF act = "implicit" THEN Own(1) ELSE 20
      after == IF v[4] # "right" THEN v[4] ELSE IF act = "gone" THEN "none" ELSE IF act = "move" /\ v[3] \in {"none", "0", "1", "c-1"} THEN "none" ELSE IF act = "move" THEN v[3] ELSE "max"
      ft(s) == IF s = "none" THEN <<>> ELSE <<FtBlock(ExpRel(pp, c, s))>>
      in == CASE act = "implicit" -> Basic(Amt, Zero, <<CAddr(Imp(1))>>, <<>>) [] OTHER -> AccO(20, Amt, Zero, 0, Ed(1), ft(v[3]), <<>>)
      ins == OptS(act # "born", In(1, T, in))
      outs == OptS(act # "gone", AccO(IF act = "born" THEN 0 ELSE id, Amt, Zero, 0, Ed(1), ft(after), <<>>))
      bic == CASE v[5] = "none" -> <<>> [] v[5] = "-1" -> <<Bic(id, -1)>> [] v[5] = "0" -> <<Bic(id, 0)>> [] v[5] = "5" -> <<Bic(id, 5)>> [] v[5] = "other" -> <<Bic(41, 5)>>
  IN IF (act = "gone" /\ v[4] # "right") \/ (act \in {"implicit", "born"} /\ v[3] # "none")
        \* resolving what the transaction lists is up to the caller
        \/ (v[6] = "unresolved" /\ after # "none") THEN Skip
     ELSE Finish("issuer", p, T, IF v[6] = "yes" THEN c ELSE -1, ins, outs, [Def EXCEPT !.bic = bic, !.caps = CapsOf(v[7]), !.sink = IF act = "gone" THEN 0 ELSE 1, !.cmtctx = v[6] = "unresolved", !.first = v[8]])

\* mana of an issuer account: where it goes
T_manalock == << <<1, 2>>, <<"issuer", "expired", "becomes", "ends", "none", "implicit">>,
                 <<0, 1, 999, 1000>>,                          \* mana moved off, and where to
                 <<"out", "allot self", "allot other", "time0", "time1", "time max", "timeother", "timeexp", "timesdr", "timenft", "burn">>,
                 <<0, 1, 500>>,                                \* mana brought along by another input
                 <<0, 7>>,                                     \* age of the account output: it generates mana
                 <<0, 1>>,                                     \* left over goes to account / remainder
                 <<0, -1, 1>> >>
B_manalock(v) ==
  LET p == v[1]  pp == PP(p)  c == 80  T == EpochStart(pp, 3) + 2
      \* a block issuer before, after
      exp == CASE v[2] = "expired" -> c - 1 [] v[2] = "ends" -> c - 1 [] OTHER -> MaxTick
      id == IF v[2] = "implicit" THEN Own(1) ELSE 20
      in == IF v[2] = "implicit" THEN Basic(Amt, FromInt(1000), <<CAddr(Imp(1))>>, <<>>)
            ELSE AccO(20, Amt, FromInt(1000), 0, Ed(1), OptS(v[2] \in {"issuer", "expired", "ends"}, FtBlock(exp)), <<>>)
      ins == <<In(1, T - v[6], in)>> \o OptS(v[5] # 0, In(2, T, Basic(Amt, FromInt(v[5]), <<CAddr(Ed(1))>>, <<>>)))
      mv == FromInt(v[3])
      lockSlot == PastBounded(pp, c) + pp.maxca
      side == CASE v[4] = "out" -> Basic(Amt, mv, <<CAddr(Ed(5))>>, <<>>)
                [] v[4] = "time0" -> Basic(Amt, mv, <<CAddr(Acc(id)), CTime(lockSlot)>>, <<>>)
                [] v[4] = "time1" -> Basic(Amt, mv, <<CAddr(Acc(id)), CTime(lockSlot + 1)>>, <<>>)
                [] v[4] = "time max" -> Basic(Amt, mv, <<CAddr(Acc(id)), CTime(MaxTick)>>, <<>>)
                [] v[4] = "timeother" -> Basic(Amt, mv, <<CAddr(Acc(41)), CTime(lockSlot + 1)>>, <<>>)
                [] v[4] = "timeexp" -> Basic(Amt, mv, <<CAddr(Acc(id)), CTime(lockSlot + 1), CExp(Ed(5), 1)>>, <<>>)
                [] v[4] = "timesdr" -> Basic(Amt, mv, <<CAddr(Acc(id)), CSdr(Ed(5), MinDeposit(pp, PlainOut(Ed(5)))), CTime(lockSlot + 1)>>, <<>>)
                [] v[4] = "timenft" -> [NftO(0, Amt, <<CAddr(Acc(id)), CTime(lockSlot + 1)>>, <<>>, <<>>) EXCEPT !.mana = mv]
                [] OTHER -> Basic(Amt, Zero, <<CAddr(Ed(5))>>, <<>>)
      allot == IF v[3] = 0 THEN <<>> ELSE IF v[4] = "allot self" THEN <<Allot(id, mv)>> ELSE IF v[4] = "allot other" THEN <<Allot(41, mv)>> ELSE <<>>
      out == AccO(id, Amt, Zero, 0, Ed(1), OptS(v[2] \notin {"ends", "none"}, FtBlock(MaxTick)), <<>>)
  IN IF v[3] = 0 /\ v[4] # "out" THEN Skip
     ELSE Finish("manalock", p, T, c, ins, <<out, side>>,
                 [Def EXCEPT !.allot = allot, !.bic = <<Bic(id, 0)>>, !.sink = IF v[7] = 0 THEN 1 ELSE 0, !.dmana = v[8] - (IF v[4] = "burn" THEN v[3] ELSE 0), !.caps = IF v[4] = "burn" \/ v[8] # 0 THEN <<2>> ELSE <<>>])

\* ============================================================ V09 staking ===
T_stake == << <<0, 1, 3>>, <<"move", "gone", "born">>,
              <<-2, -1, 0, 1>>,                                            \* where the window lies around an epoch boundary
              <<"none", "runs", "lastepoch", "over", "max">>,
              <<"right", "none", "same", "amount", "cost", "start", "end+1", "end-", "reset", "reset start-1", "reset start+1", "reset end-1", "reset end+1", "end edge", "end edge-1">>,
              YN,                                                          \* rewards claimed
              <<"yes", "no", "unresolved">>,
              <<0, -1, 1>> >>                                              \* held, relative to staked
B_stake(v) ==
  LET p == v[1]  pp == PP(p)
      T == EpochStart(pp, 6)
      c == EpochStart(pp, 4) - (IF v[3] <= -1 THEN pp.minca ELSE pp.maxca) + (IF v[3] = -2 THEN -1 ELSE IF v[3] = -1 THEN 0 ELSE IF v[3] = 0 THEN -1 ELSE 0)
      ef == EpochOf(pp, FutureBounded(pp, c))  ep == EpochOf(pp, PastBounded(pp, c))
      stk == Amt
      ended == v[4] \in {"over"}
      nw == IF v[5] # "right" THEN v[5] ELSE IF v[2] = "gone" \/ (v[4] = "none" /\ v[2] = "move") THEN "none" ELSE "same"
      \* default: rewards are claimed if and only if a feature that has ended goes
      claim == v[6] # (v[2] # "born" /\ ended /\ nw \notin {"same", "end edge-"})
      old == CASE v[4] = "runs" -> FtStake(stk, One, 1, ef + 1) [] v[4] = "lastepoch" -> FtStake(stk, One, 1, ef) [] v[4] = "over" -> FtStake(stk, One, 1, ef - 1) [] OTHER -> FtStake(stk, One, 1, MaxTick)
      has == v[4] # "none"
      b == IF has THEN old ELSE FtStake(stk, One, ep, ep + pp.unbond)
      new == CASE nw \in {"same", "none"} -> b [] nw = "amount" -> [b EXCEPT !.amt = AddI(@, -1)] [] nw = "cost" -> [b EXCEPT !.cost = FromInt(2)]
               [] nw = "start" -> [b EXCEPT !.start = @ + 1] [] nw = "end+1" -> [b EXCEPT !.end = IF @ = MaxTick THEN @ ELSE @ + 1] [] nw = "end-" -> [b EXCEPT !.end = @ - 1]
               [] nw = "reset" -> FtStake(stk, One, ep, ep + pp.unbond) [] nw = "reset start-1" -> FtStake(stk, One, ep - 1, ep + pp.unbond)
               [] nw = "reset start+1" -> FtStake(stk, One, ep + 1, ep + pp.unbond + 1) [] nw = "reset end-1" -> FtStake(stk, One, ep, ep + pp.unbond - 1)
               [] nw = "reset end+1" -> FtStake(stk, One, ep, ep + pp.unbond + 1)
               [] nw = "end edge" -> [b EXCEPT !.end = ep + pp.unbond] [] nw = "end edge-1" -> [b EXCEPT !.end = ep + pp.unbond - 1]
      bi == FtBlock(MaxTick)
      gone == v[2] = "gone"
      in == AccO(20, Amt, Zero, 0, Ed(1), (IF gone THEN <<>> ELSE <<bi>>) \o OptS(has, old), <<>>)
      \* an account with a staking feature has a block issuer feature: expired for one that is to be destroyed
      in2 == IF gone THEN [in EXCEPT !.ft = <<FtBlock(1)>> \o OptS(has, old)] ELSE in
      out == AccO(IF v[2] = "born" THEN 0 ELSE 20, AddI(Amt, v[8]), Zero, 0, Ed(1), <<bi>> \o OptS(nw # "none", new), <<>>)
      ins == OptS(v[2] # "born", In(1, T, in2))
      outs == OptS(~gone, out)
  IN IF (gone /\ (v[5] # "right" \/ v[8] # 0)) \/ (v[2] = "born" /\ (has \/ v[6])) \/ (v[7] = "unresolved" /\ nw # "none") \/ (v[7] = "unresolved" /\ v[2] = "move") THEN Skip
     ELSE Finish("stake", p, T, IF v[7] = "yes" THEN c ELSE -1, ins, outs,
                 [Def EXCEPT !.bic = OptS(v[2] # "born", Bic(20, 0)), !.rew = OptS(claim, Rew(1, FromInt(777))), !.caps = <<6>>, !.sink = IF gone THEN 0 ELSE 1, !.cmtctx = v[7] = "unresolved"])

\* ========================================================= V10 delegation ===
T_deleg == << <<0, 1, 3>>, <<"born", "move", "move known", "gone", "gone known">>,
              <<"epoch", "registration">>, <<-1, 0, 1, 2>>, <<"past", "future">>,     \* which bound of the window lies where
              <<0, -1, 1>>, <<"right", "0", "-1", "+1", "max">>,                         \* start, end epoch
              <<0, -1, 1>>, YN, YN, <<"yes", "no", "unresolved">>, <<0, 1>> >>            \* delegated amount, validator, claiming the wrong way, commitment, amount held
B_deleg(v) ==
  LET p == v[1]  pp == PP(p)  T == EpochStart(pp, 8)
      edge == (IF v[3] = "epoch" THEN EpochEnd(pp, 4) ELSE RegistrationSlot(pp, 4)) + v[4]
      c == edge - (IF v[5] = "past" THEN pp.maxca ELSE pp.minca)
      born == v[2] = "born"  gone == v[2] \in {"gone", "gone known"}
      known == v[2] \in {"move known", "gone known"}
      id == IF known THEN 20 ELSE Own(1)
      s0 == 2
      in == DelO(IF known THEN 20 ELSE 0, Amt, Amt, 30, s0, IF known THEN 3 ELSE 0, Ed(1))
      st == IF born THEN DelegStart(pp, c) + v[6] ELSE s0 + v[6]
      en == CASE v[7] = "0" -> 0 [] v[7] = "right" -> IF born THEN 0 ELSE DelegEnd(pp, c) [] v[7] = "-1" -> DelegEnd(pp, c) - 1 [] v[7] = "+1" -> DelegEnd(pp, c) + 1 [] v[7] = "max" -> MaxTick
      out == DelO(IF born THEN 0 ELSE id, AddI(Amt, v[12]), AddI(AddI(Amt, v[12] * (IF born THEN 1 ELSE 0)), v[8]), IF v[9] THEN 31 ELSE 30, st, en, Ed(1))
      claim == v[10] # gone
      ins == OptS(~born, In(1, T, in))
      outs == OptS(~gone, out)
  IN IF (gone /\ (v[6] # 0 \/ v[7] # "right" \/ v[8] # 0 \/ v[9] \/ v[12] # 0)) \/ (born /\ v[10]) \/ (v[11] = "unresolved" /\ born) THEN Skip
     ELSE Finish("deleg", p, T, IF v[11] = "yes" THEN c ELSE -1, ins, outs, [Def EXCEPT !.rew = OptS(claim, Rew(1, FromInt(777))), !.cmtctx = v[11] = "unresolved"])

\* ========================================================== V11 implicit accounts ===
T_implicit == << <<0, 1>>, <<1, 2>>,
                 <<"issuer", "plain", "early", "edge", "stake", "no">>,    \* what the account carries
                 <<"own", "fresh", "other">>, <<0, 1>>, <<"0", "-1", "none", "1">>, <<"yes", "no">>,
                 <<Zero, One>>, YN, <<"keep", "out", "allot">>, <<"ed", "imp", "nft imp", "acc imp", "sdr imp", "exp imp">> >>
B_implicit(v) ==
  LET p == v[1]  pp == PP(p)  c == 80  T == EpochStart(pp, 3)
      imp(n) == Basic(Amt, v[8], <<CAddr(Imp(n))>>, OptS(v[9], FtTok(30, 1, One)))
      ins == <<In(1, T, imp(1))>> \o OptS(v[2] = 2, In(2, T, imp(2)))
      ep == EpochOf(pp, PastBounded(pp, c))
      ft == CASE v[3] = "issuer" -> <<FtBlock(MaxTick)>> [] v[3] = "plain" -> <<>> [] v[3] = "early" -> <<FtBlock(PastBounded(pp, c) - 1)>> [] v[3] = "edge" -> <<FtBlock(PastBounded(pp, c))>>
              [] v[3] = "stake" -> <<FtBlock(MaxTick), FtStake(One, One, ep, ep + pp.unbond)>> [] OTHER -> <<>>
      id == CASE v[4] = "own" -> Own(1) [] v[4] = "fresh" -> 0 [] v[4] = "other" -> 25
      acc(i, n) == AccO(i, Amt, Zero, n, Ed(1), ft, <<>>)
      accs == IF v[3] = "no" THEN <<>> ELSE <<acc(id, v[5])>> \o OptS(v[2] = 2, acc(Own(2), 0))
      toks == OptS(v[9], Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<FtTok(30, 1, FromInt(v[2]))>>))
      m == MinDeposit(pp, PlainOut(Ed(1)))
      extra == CASE v[11] = "ed" -> <<>> [] v[11] = "imp" -> <<Basic(Amt, Zero, <<CAddr(Imp(5))>>, <<>>)>>
                 [] v[11] = "nft imp" -> <<NftO(0, Amt, <<CAddr(Imp(5))>>, <<>>, <<>>)>> [] v[11] = "acc imp" -> <<AccO(0, Amt, Zero, 0, Imp(5), <<>>, <<>>)>>
                 [] v[11] = "sdr imp" -> <<Basic(Amt, Zero, <<CAddr(Ed(1)), CSdr(Imp(5), AddI(MulSmall(m, 3), 1))>>, <<>>)>> [] v[11] = "exp imp" -> <<Basic(Amt, Zero, <<CAddr(Ed(1)), CExp(Imp(5), 99)>>, <<>>)>>
      bic(a) == CASE v[6] = "0" -> <<Bic(a, 0)>> [] v[6] = "-1" -> <<Bic(a, -1)>> [] v[6] = "none" -> <<>> [] v[6] = "1" -> <<Bic(a, 1)>>
  IN IF v[3] = "no" /\ (v[4] # "own" \/ v[5] # 0) THEN Skip
     ELSE Finish("implicit", p, T, IF v[7] = "yes" THEN c ELSE -1, ins, accs \o toks \o extra,
                 [Def EXCEPT !.bic = bic(Own(1)) \o (IF v[2] = 2 THEN bic(Own(2)) ELSE <<>>), !.sink = IF v[10] = "keep" /\ accs # <<>> THEN 1 ELSE 0, !.cmtctx = v[7] = "unresolved",
                             !.allot = OptS(v[10] = "allot" /\ v[8] # Zero, Allot(Own(1), One))])

\* ====================================================== V12 capabilities ===
\* every set of things burned or destroyed under every set of capabilities
T_caps == << Ints(0, 127), Ints(0, 63) >>
B_caps(v) ==
  LET T == EpochStart(PP(0), 1)
      does(i) == BmBit(<<v[1]>>, i)
      \* 0 burn token, 1 burn mana, 2 account, 3 anchor, 4 foundry, 5 NFT, 6: what the foundry issued is still around
      chain(i, o) == <<In(i, T, o)>>
      acc == AccO(20, Amt, FromInt(5), 0, Ed(1), <<>>, <<>>)
      anc == AncO(22, Amt, 4, Ed(1), Ed(1), <<>>, <<>>)
      fac == AccO(30, Amt, Zero, 1, Ed(1), <<>>, <<>>)
      fnd == FndO(Amt, 30, 1, IF does(6) THEN FromInt(3) ELSE Zero, Zero, FromInt(9), <<>>, <<>>)
      nft == NftO(21, Amt, <<CAddr(Ed(1))>>, <<>>, <<>>)
      tok == Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<FtTok(41, 1, FromInt(2))>>)
      ins == <<In(1, T, acc), In(2, T, anc), In(3, T, fac), In(4, T, fnd), In(5, T, nft), In(6, T, tok)>>
      outs == OptS(~does(2), acc) \o OptS(~does(3), anc) \o <<fac>> \o OptS(~does(4), fnd) \o OptS(~does(5), nft)
              \o <<Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<FtTok(41, 1, FromInt(IF does(0) THEN 1 ELSE 2))>>)>>
  IN Finish("caps", 0, T, -1, ins, [j \in DOMAIN outs |-> IF outs[j].t = "account" /\ outs[j].id = 20 THEN [outs[j] EXCEPT !.mana = Zero] ELSE outs[j]],
            [Def EXCEPT !.caps = CapsOf(v[2]), !.dmana = IF does(1) THEN -1 ELSE 0])

\* ==================================================== V13 sender and issuer ===
T_sender == << <<"basic", "nft", "account", "issuer nft", "issuer account", "issuer anchor">>,
               <<Ed(1), Ed(2), Ed(3), Ed(4), Imp(1), Imp(6), Acc(20), Acc(23), Nft(21), Anc(22), Anc(20), M12, Multi(1, <<Sub1(Ed(1), 1), Sub1(Ed(2), 1)>>), Restr(Ed(1), <<>>), Restr(Ed(3), AllBm), Restr(M12, AllBm), Restr(Anc(22), AllBm), Acc(51), Nft(0)>>,
               <<"state", "gov", "gone">>, <<"move", "gone">>,
               <<"known", "first move">>,
               <<"all", "no account", "no multi", "implicit">>,
               <<"new", "move">>,
               <<"none", "owner", "return">> >>                     \* an expiring output of 3, returning to 4
B_sender(v) ==
  LET p == 1  pp == PP(p)  c == 60  T == EpochStart(pp, 4)
      gone == v[4] = "gone"
      first == v[5] = "first move"
      accIn == AccO(IF first THEN 0 ELSE 20, Amt, Zero, 0, Ed(1), <<>>, <<>>)
      accId == IF first THEN Own(1) ELSE 20
      hasAcc == v[6] # "no account"
      exp == Basic(Amt, Zero, <<CAddr(Ed(3)), CExp(Ed(4), IF v[8] = "owner" THEN PastBounded(pp, c) + 1 ELSE FutureBounded(pp, c))>>, <<>>)
      mvIn == NftO(45, Amt, <<CAddr(Ed(1))>>, <<>>, OptS(v[1] = "issuer nft", FtIssuer(v[2])))
      mvAnc == AncO(46, Amt, 2, Ed(1), Ed(1), <<>>, OptS(v[1] = "issuer anchor", FtIssuer(v[2])))
      mvAcc == AccO(47, Amt, Zero, 0, Ed(1), <<>>, OptS(v[1] = "issuer account", FtIssuer(v[2])))
      moves == v[7] = "move"
      ins == <<In(2, T, Basic(Amt, Zero, <<CAddr(Ed(1))>>, <<>>))>>
             \o OptS(hasAcc, In(1, T, accIn))
             \o <<In(3, T, NftO(21, Amt, <<CAddr(Ed(2))>>, <<>>, <<>>)), In(4, T, AncO(22, Amt, 4, Ed(1), Ed(2), <<>>, <<>>))>>
             \o OptS(v[6] # "no multi", In(5, T, Basic(Amt, Zero, <<CAddr(M12)>>, <<>>)))
             \o OptS(v[6] = "implicit", In(6, T, Basic(Amt, Zero, <<CAddr(Imp(6))>>, <<>>)))
             \o OptS(v[8] # "none", In(7, T, exp))
             \o OptS(moves /\ v[1] = "issuer nft", In(8, T, mvIn)) \o OptS(moves /\ v[1] = "issuer anchor", In(8, T, mvAnc)) \o OptS(moves /\ v[1] = "issuer account", In(8, T, mvAcc))
      a == v[2]
      s == <<FtSender(a)>>
      o == CASE v[1] = "basic" -> Basic(Amt, Zero, <<CAddr(Ed(5))>>, s)
             [] v[1] = "nft" -> NftO(0, Amt, <<CAddr(Ed(5))>>, s, <<>>)
             [] v[1] = "account" -> AccO(0, Amt, Zero, 0, Ed(5), s, <<>>)
             [] v[1] = "issuer nft" -> IF moves THEN mvIn ELSE [mvIn EXCEPT !.id = 0]
             [] v[1] = "issuer anchor" -> IF moves THEN mvAnc ELSE [mvAnc EXCEPT !.id = 0, !.si = 0]
             [] v[1] = "issuer account" -> IF moves THEN mvAcc ELSE [mvAcc EXCEPT !.id = 0]
      outs == <<o>> \o OptS(~gone /\ hasAcc, AccO(accId, Amt, Zero, 0, Ed(1), <<>>, <<>>)) \o OptS(~gone, NftO(21, Amt, <<CAddr(Ed(2))>>, <<>>, <<>>))
              \o OptS(v[3] # "gone", AncO(22, Amt, IF v[3] = "state" THEN 5 ELSE 4, Ed(1), Ed(2), <<>>, <<>>))
              \o OptS(v[6] = "implicit", AccO(Own(6), Amt, Zero, 0, Ed(1), <<FtBlock(MaxTick)>>, <<>>))
  IN IF v[1] \in {"basic", "nft", "account"} /\ moves THEN Skip
     ELSE LET r == Finish("sender", p, T, c, ins, outs, [Def EXCEPT !.caps = CapAll, !.bic = OptS(v[6] = "implicit", Bic(Own(6), 0)), !.sink = IF v[6] = "implicit" THEN Len(outs) ELSE 0])
          IN IF UnlockFailed(r.unl) # {} THEN Skip ELSE r
=============================================================================
