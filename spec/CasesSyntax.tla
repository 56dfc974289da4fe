---------------------------- MODULE CasesSyntax -----------------------------
(* Families of cases around the rules a transaction has to satisfy on its own, *)
(* and the walk over a family.                                                 *)
EXTENDS CasesLedger

\* ========================================================= S02 unlock lists ===
ListAlphabet ==
  <<Sig(1), Sig(2), BadSig(1, 1), RefU("ref", 0), RefU("ref", 1), RefU("ref", 2), RefU("acc", 0), RefU("acc", 1), RefU("nft", 0), RefU("anc", 1), RefU("nft", 3), EmptyU,
    MultiU(<<Sig(1), Sig(2)>>), MultiU(<<Sig(2), EmptyU>>), MultiU(<<Sig(3), Sig(3)>>), MultiU(<<RefU("ref", 0), EmptyU>>), MultiU(<<RefU("ref", 1), Sig(3)>>), MultiU(<<RefU("acc", 0), Sig(4)>>),
    MultiU(<<RefU("nft", 1), RefU("acc", 1)>>), MultiU(<<EmptyU, EmptyU>>), MultiU(<<Sig(1)>>), MultiU(<<>>), MultiU(<<MultiU(<<Sig(4), Sig(5)>>), EmptyU>>),
    MultiU([i \in 1..10 |-> Sig(20 + i)]), MultiU([i \in 1..11 |-> Sig(20 + i)])>>
T_unlist == << <<0, 1, 2, 3, 4>>, ListAlphabet, ListAlphabet, ListAlphabet, <<0, -1, 1>> >>
B_unlist(v) ==
  LET n == v[1]  T == EpochStart(PP(0), 1)
      unl == IF n = 4 THEN <<Sig(9)>> \o SubSeq(<<v[2], v[3], v[4]>>, 1, 3) ELSE SubSeq(<<v[2], v[3], v[4]>>, 1, n)
      k == n + v[5]
      ins == [i \in 1..k |-> In(i, T, Basic(Amt, Zero, <<CAddr(Ed(i))>>, <<>>))]
      used == Min2(n, 3)
      r == Finish("unlist", 0, T, -1, ins, <<Basic(IF k > 0 THEN MulSmall(Amt, k) ELSE Amt, Zero, <<CAddr(Ed(1))>>, <<>>)>>, [Def EXCEPT !.fund = FALSE])
  IN IF k < 0 \/ (v[5] # 0 /\ n # 2 /\ n # 0) \/ (n < 3 /\ v[4] # ListAlphabet[1]) \/ (n < 2 /\ v[3] # ListAlphabet[1]) \/ (n < 1 /\ v[2] # ListAlphabet[1]) THEN Skip
     ELSE [r EXCEPT !.unl = unl]

\* =============================================================== S01 limits ===
Cnt == <<0, 1, 2, 127, 128, 129>>
T_limits == << <<"inputs", "outputs", "allotments", "context", "rewards", "index", "keys", "tag", "ptag", "pdata", "meta", "state", "entries", "caps", "net", "subs", "weights">>, Ints(1, 8) >>
B_limits(v) ==
  LET T == EpochStart(PP(0), 1)  k == v[1]  x == v[2]
      n == IF x <= Len(Cnt) THEN Cnt[x] ELSE 3
      one == <<In(1, T, Basic(Amt, FromInt(100000), <<CAddr(Ed(1))>>, <<>>))>>
      bo(a) == Basic(a, Zero, <<CAddr(Ed(2))>>, <<>>)
      fin(ins, outs, o) == Finish("limits-" \o k, 0, T, IF k = "context" \/ k = "rewards" \/ k = "keys" THEN 50 ELSE -1, ins, outs, o)
      ents(m) == <<[k |-> FMeta, ents |-> m]>>
      ent(kl, vl) == [key |-> 1, kl |-> kl, v |-> IF vl = 0 THEN 0 ELSE 1, vl |-> vl, bad |-> 0]
  IN CASE k = "inputs" -> IF n = 0 THEN [fin(<<>>, <<bo(Amt)>>, [Def EXCEPT !.fund = FALSE]) EXCEPT !.unl = <<Sig(8)>>]
                          ELSE fin([i \in 1..(n - 1) |-> In(i, T, bo(Amt))], <<>>, Def)
       [] k = "outputs" -> fin(one, [i \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> bo(Amt)], [Def EXCEPT !.fund = n # 0])
       [] k = "allotments" -> fin(one, <<>>, [Def EXCEPT !.allot = [i \in 1..n |-> Allot(400 + i, One)]])
       [] k = "context" -> fin(one, <<>>, [Def EXCEPT !.bic = [i \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> Bic(400 + i, 1)]])
       [] k = "rewards" -> LET r == fin(one, <<>>, Def) IN [r EXCEPT !.tx.ctx = <<[k |-> "cmt"]>> \o
                              (CASE x = 1 -> <<[k |-> "rew", idx |-> 0]>> [] x = 2 -> <<[k |-> "rew", idx |-> 1]>> [] x = 3 -> <<[k |-> "rew", idx |-> 2]>> [] x = 4 -> <<[k |-> "rew", idx |-> 0], [k |-> "rew", idx |-> 0]>>
                                 [] x = 5 -> <<[k |-> "rew", idx |-> 127]>> [] x = 6 -> <<[k |-> "rew", idx |-> 128]>> [] x = 7 -> <<[k |-> "rew", idx |-> 65535]>> [] OTHER -> <<[k |-> "rew", idx |-> 0], [k |-> "rew", idx |-> 1]>>)]
       [] k = "index" -> LET r == fin(one, <<>>, Def) IN [r EXCEPT !.ins[1].idx = <<0, 1, 126, 127, 128, 129, 255, 65535>>[x]]
       [] k = "keys" -> fin(one, <<[AccO(0, Amt, Zero, 0, Ed(2), <<FtBlock(MaxTick)>>, <<>>) EXCEPT !.ft[1].keys = [i \in 1..n |-> [n |-> i, r |-> 0]]]>>, Def)
       [] k = "tag" -> fin(one, <<Basic(Amt, Zero, <<CAddr(Ed(2))>>, <<[k |-> FTag, tag |-> IF x = 1 THEN 0 ELSE 1, len |-> <<0, 1, 2, 63, 64, 65, 128, 255>>[x]]>>)>>, Def)
       [] k = "ptag" -> LET r == fin(one, <<>>, Def) IN [r EXCEPT !.tx.ptag = <<-1, 0, 1, 63, 64, 65, 128, 255>>[x]]
       [] k = "pdata" -> LET r == fin(one, <<>>, Def) IN [r EXCEPT !.tx.ptag = 3, !.tx.pdata = <<0, 1, 2, 8191, 8192, 8193, 9000, 65535>>[x]]
       [] k = "meta" -> fin(one, <<Basic(Amt, Zero, <<CAddr(Ed(2))>>, ents(<<ent(3, <<0, 1, 8183, 8184, 8185, 8186, 8187, 8192>>[x])>>))>>, Def)
       [] k = "state" -> fin(one, <<AncO(0, Amt, 0, Ed(2), Ed(2), <<[k |-> FState, ents |-> <<ent(3, <<0, 1, 8183, 8184, 8185, 8186, 8187, 8192>>[x])>>]>>, <<>>)>>, Def)
       [] k = "entries" -> fin(one, <<Basic(Amt, Zero, <<CAddr(Ed(2))>>, ents(
              CASE x = 1 -> <<>> [] x = 2 -> <<[ent(3, 1) EXCEPT !.bad = 1]>> [] x = 3 -> <<ent(0, 1)>> [] x = 4 -> <<ent(1, 0)>> [] x = 5 -> <<ent(255, 0)>> [] x = 6 -> <<ent(1, 1), ent(2, 1)>> [] x = 7 -> <<[ent(3, 1) EXCEPT !.bad = 2]>> [] OTHER -> <<ent(1, 1), [ent(2, 1) EXCEPT !.bad = 1]>>))>>, Def)
       [] k = "caps" -> fin(one, <<>>, [Def EXCEPT !.caps = <<<<>>, <<0>>, <<1>>, <<63>>, <<64>>, <<128>>, <<255>>, <<1, 1>>>>[x]])
       [] k = "net" -> LET r == fin(one, <<>>, Def) IN [r EXCEPT !.tx.net = x % 2]
       [] k = "subs" -> fin(one, <<Basic(Amt, Zero, <<CAddr(Multi(1, [i \in 1..(<<0, 1, 2, 3, 9, 10, 11, 12>>[x]) |-> Sub1(Ed(20 + i), 1)]))>>, <<>>)>>, Def)
       [] k = "weights" -> fin(one, <<Basic(Amt, Zero, <<CAddr(
              CASE x = 1 -> Multi(0, <<Sub1(Ed(1), 1), Sub1(Ed(2), 1)>>) [] x = 2 -> Multi(2, <<Sub1(Ed(1), 1), Sub1(Ed(2), 1)>>) [] x = 3 -> Multi(3, <<Sub1(Ed(1), 1), Sub1(Ed(2), 1)>>)
                [] x = 4 -> Multi(1, <<Sub1(Ed(1), 0), Sub1(Ed(2), 1)>>) [] x = 5 -> Multi(510, <<Sub1(Ed(1), 255), Sub1(Ed(2), 255)>>) [] x = 6 -> Multi(511, <<Sub1(Ed(1), 255), Sub1(Ed(2), 255)>>)
                [] x = 7 -> Multi(1, <<Sub1(Ed(1), 1), Sub1(Ed(1), 1)>>) [] OTHER -> Multi(1, <<Sub1(Ed(1), 1), Sub1(Imp(2), 1)>>))>>, <<>>)>>, Def)

\* slots, amounts, identities: zeros and self reference
SelfKinds == <<"account", "anchor state", "anchor gov", "nft">>
T_self == << SelfKinds, <<"acc", "anc", "nft", "ed">>, <<0, 20, 51>>, <<0, 20, 51>>, YN, YN >>
B_self(v) ==
  LET T == EpochStart(PP(0), 1)
      base == CASE v[2] = "acc" -> Acc(v[4]) [] v[2] = "anc" -> Anc(v[4]) [] v[2] = "nft" -> Nft(v[4]) [] v[2] = "ed" -> Ed(1)
      a == IF v[5] THEN Restr(base, AllBm) ELSE base
      id == v[3]
      mk(ad) == CASE v[1] = "account" -> AccO(id, Amt, Zero, 0, ad, <<>>, <<>>) [] v[1] = "anchor state" -> AncO(id, Amt, IF id = 0 THEN 0 ELSE 1, ad, Ed(1), <<>>, <<>>)
                  [] v[1] = "anchor gov" -> AncO(id, Amt, IF id = 0 THEN 0 ELSE 1, Ed(1), ad, <<>>, <<>>) [] v[1] = "nft" -> NftO(id, Amt, <<CAddr(ad)>>, <<>>, <<>>)
      before == mk(Ed(1))
      in == IF id = 51 THEN [before EXCEPT !.id = 0] ELSE before
      ins == OptS(id # 0 /\ v[6], In(1, T, in))
  IN Finish("self", 0, T, -1, ins, <<mk(a)>>, Def)

\* order of conditions, features and context inputs; absence of mandatory conditions
T_shape == << <<"basic", "account", "anchor", "foundry", "nft", "deleg">>, Ints(1, 12), Ints(1, 12), <<"sorted", "reversed", "double">>, <<"all", "none", "first">>, Ints(1, 9) >>
B_shape(v) ==
  LET T == EpochStart(PP(0), 1)  t == v[1]
      uc(i) == CASE i = 1 -> <<CAddr(Ed(1))>> [] i = 2 -> <<CTime(5)>> [] i = 3 -> <<CExp(Ed(2), 5)>> [] i = 4 -> <<CSdr(Ed(2), <<0, 0, 1>>)>> [] i = 5 -> <<CState(Ed(1))>> [] i = 6 -> <<CGov(Ed(1))>> [] i = 7 -> <<CImm(Acc(20))>>
                 [] i = 8 -> <<CTime(0)>> [] i = 9 -> <<CExp(Ed(2), 0)>> [] OTHER -> <<>>
      ft(i) == CASE i = 1 -> <<FtSender(Ed(8))>> [] i = 2 -> <<FtIssuer(Ed(8))>> [] i = 3 -> <<FtMeta(1)>> [] i = 4 -> <<FtState(1)>> [] i = 5 -> <<FtTag(1)>> [] i = 6 -> <<FtTok(20, 1, One)>> [] i = 7 -> <<FtBlock(MaxTick)>>
                 [] i = 8 -> <<FtStake(One, One, 0, 30)>> [] i = 9 -> <<FtTok(20, 1, Zero)>> [] OTHER -> <<>>
      base == CASE t = "basic" -> Basic(MulSmall(Amt, 2), Zero, <<CAddr(Ed(1))>>, <<>>) [] t = "account" -> AccO(0, MulSmall(Amt, 2), Zero, 0, Ed(1), <<>>, <<>>) [] t = "anchor" -> AncO(0, MulSmall(Amt, 2), 0, Ed(1), Ed(1), <<>>, <<>>)
                [] t = "foundry" -> FndO(MulSmall(Amt, 2), 20, 1, One, Zero, FromInt(9), <<>>, <<>>) [] t = "nft" -> NftO(0, MulSmall(Amt, 2), <<CAddr(Ed(1))>>, <<>>, <<>>) [] t = "deleg" -> DelO(0, MulSmall(Amt, 2), MulSmall(Amt, 2), 30, 1, 0, Ed(1))
      need == CASE v[5] = "all" -> base.uc [] v[5] = "none" -> <<>> [] v[5] = "first" -> <<base.uc[1]>>
      order(s) == CASE v[4] = "sorted" -> SortSeq(s, LAMBDA x, y : x.k < y.k) [] v[4] = "reversed" -> SortSeq(s, LAMBDA x, y : x.k > y.k) [] v[4] = "double" -> s \o (IF s = <<>> THEN s ELSE <<s[1]>>)
      dedup(s, e) == IF e # <<>> /\ \E i \in DOMAIN s : s[i].k = e[1].k THEN s ELSE s \o e
      fts == order(dedup(ft(v[2]), IF v[3] > 9 THEN <<>> ELSE ft(v[3])))
      o == [base EXCEPT !.uc = order(dedup(need, uc(v[6]))), !.ft = IF v[3] = 12 THEN <<>> ELSE fts, !.imf = IF v[3] = 12 THEN order(ft(v[2])) ELSE <<>>]
      fits == KindsOf(o.uc) \subseteq AllowedUC(t) /\ KindsOf(o.ft) \subseteq AllowedFt(t) /\ KindsOf(o.imf) \subseteq AllowedImf(t)
  IN IF fits THEN Finish("shape-" \o t, 0, T, 50, <<>>, <<o>>, Def) ELSE Skip

\* foundries and delegations on their own
Around256 == <<Zero, One, FromInt(2), U128, AddI(MaxU256, -1), MaxU256>>
T_scheme == << Around256, Around256, Around256, <<"none", "own", "serial", "account">> >>
B_scheme(v) ==
  LET T == EpochStart(PP(0), 1)
      tok == CASE v[4] = "none" -> <<>> [] v[4] = "own" -> <<FtTok(20, 1, One)>> [] v[4] = "serial" -> <<FtTok(20, 2, One)>> [] v[4] = "account" -> <<FtTok(21, 1, One)>>
  IN Finish("scheme", 0, T, -1, <<In(1, T, AccO(20, Amt, Zero, 0, Ed(1), <<>>, <<>>))>>, <<AccO(20, Amt, Zero, 1, Ed(1), <<>>, <<>>), FndO(Amt, 20, 1, v[1], v[2], v[3], tok, <<>>)>>, Def)

\* mana and supply limits
T_maxima == << <<0, 1, 2, 3>>, <<-1, 0, 1>>, <<"stored", "allotted", "both", "supply", "stored one", "supply one">>, <<0, 1>> >>
B_maxima(v) ==
  LET pp == PP(v[1])  T == EpochStart(pp, 1)
      mm == AddI(MaxMana(pp), v[2])
      sup == IF v[1] = 3 /\ v[2] > 0 THEN MaxU64 ELSE AddI(pp.supply, v[2])
      h == DivSmall(mm, 2)
      bo(a, m) == Basic(a, m, <<CAddr(Ed(1))>>, <<>>)
      ins == <<In(1, T, bo(Amt, Zero))>>
      f(outs, al) == Finish("maxima", v[1], T, -1, ins, outs, [Def EXCEPT !.allot = al, !.fund = FALSE])
  IN CASE v[3] = "stored" -> f(<<bo(Amt, h), bo(Amt, Sub(mm, h))>>, <<>>)
       [] v[3] = "stored one" -> f(<<bo(Amt, mm)>>, <<>>)
       [] v[3] = "allotted" -> f(<<bo(Amt, Zero)>>, IF v[4] = 0 THEN <<Allot(30, mm)>> ELSE <<Allot(30, h), Allot(31, Sub(mm, h))>>)
       [] v[3] = "both" -> f(<<bo(Amt, h)>>, <<Allot(30, Sub(mm, h))>>)
       [] v[3] = "supply" -> f(<<bo(Amt, Zero), bo(Sub(sup, Amt), Zero)>>, <<>>)
       [] v[3] = "supply one" -> f(<<bo(sup, Zero)>>, <<>>)

\* ==================================================== S04 storage deposits ===
OutKinds == <<"basic", "account", "anchor", "foundry", "nft", "deleg">>
\* the richest output of a kind, features chosen by a bit set
RichFt(t, m) ==
  LET b(i, f) == IF BmBit(<<m>>, i) THEN <<f>> ELSE <<>> IN
  CASE t = "basic" -> b(0, FtSender(Ed(8))) \o b(1, FtMeta(1)) \o b(2, FtTag(1)) \o b(3, FtTok(20, 1, One))
    [] t = "account" -> b(0, FtSender(Ed(8))) \o b(1, FtMeta(1)) \o b(2, FtBlock(MaxTick)) \o b(3, FtStake(One, One, 0, 30))
    [] t = "anchor" -> b(0, FtMeta(1)) \o b(1, FtState(1))
    [] t = "foundry" -> b(0, FtMeta(1)) \o b(1, FtTok(20, 1, One))
    [] t = "nft" -> b(0, FtSender(Ed(8))) \o b(1, FtMeta(1)) \o b(2, FtTag(1))
    [] OTHER -> <<>>
KindO(t, a, fts, imf) ==
  CASE t = "basic" -> Basic(Zero, Zero, <<CAddr(a)>>, fts) [] t = "account" -> AccO(0, Zero, Zero, 0, a, fts, imf) [] t = "anchor" -> AncO(0, Zero, 0, a, a, fts, imf)
    [] t = "foundry" -> FndO(Zero, 20, 1, One, Zero, FromInt(9), fts, imf) [] t = "nft" -> NftO(0, Zero, <<CAddr(a)>>, fts, imf) [] t = "deleg" -> DelO(0, Zero, Zero, 30, 1, 0, a)
DepAddrs == <<Ed(1), Imp(1), Acc(20), Restr(Ed(1), AllBm), Restr(Ed(1), <<>>), M12, Restr(M12, <<255>>), Multi(1, [i \in 1..10 |-> Sub1(Ed(20 + i), 1)])>>
T_deposit == << <<0, 1, 2, 3>>, OutKinds, Ints(0, 15), DepAddrs, <<0, -1, 1>>, <<"none", "sdr", "time", "exp", "all">>, <<"none", "min-1", "min", "min+1", "all", "all+1">>, YN, DepAddrs >>
B_deposit(v) ==
  LET p == v[1]  pp == PP(p)  t == v[2]  T == EpochStart(pp, 2)
      o0 == KindO(t, v[4], RichFt(t, v[3]), IF v[8] /\ t \in {"account", "anchor", "nft", "foundry"} THEN <<FtMeta(2)>> ELSE <<>>)
      ok == t \in {"basic", "nft"}
      ret == v[9]
      m == MinDeposit(pp, PlainOut(ret))
      cond == (IF ok /\ v[6] \in {"sdr", "all"} THEN <<CSdr(ret, Zero)>> ELSE <<>>) \o (IF ok /\ v[6] \in {"time", "all"} THEN <<CTime(9)>> ELSE <<>>) \o (IF ok /\ v[6] \in {"exp", "all"} THEN <<CExp(ret, 9)>> ELSE <<>>)
      o1 == [o0 EXCEPT !.uc = @ \o cond]
      a == AddI(MinDeposit(pp, o1), v[5])
      amt == IF v[7] \in {"none", "all", "all+1"} THEN a ELSE Add(a, m)
      ra == CASE v[7] = "min-1" -> AddI(m, -1) [] v[7] = "min+1" -> AddI(m, 1) [] v[7] = "all" -> amt [] v[7] = "all+1" -> AddI(amt, 1) [] OTHER -> m
      o2 == [o1 EXCEPT !.amt = amt, !.uc = [i \in DOMAIN @ |-> IF @[i].k = USdr THEN [@[i] EXCEPT !.amt = ra] ELSE @[i]]]
      o3 == IF t = "deleg" THEN [o2 EXCEPT !.damt = amt] ELSE o2
      hasSdr == ok /\ v[6] \in {"sdr", "all"}
  IN IF (v[7] # "none" /\ ~hasSdr) \/ (~hasSdr /\ v[9] # Ed(1)) \/ (~ok /\ v[6] # "none") THEN Skip
     ELSE Finish("deposit-" \o t, p, T, 50, <<>>, <<o3>>, Def)

\* what has to be returned, to every kind of address
T_return == << <<0, 1, 2, 3>>, <<"basic", "nft">>, <<"sdr", "all">>, <<"min-1", "min", "min+1", "all", "all+1">>, DepAddrs, <<Ed(1), Acc(20)>> >>
B_return(v) == B_deposit(<<v[1], v[2], 0, v[6], 0, v[3], v[4], FALSE, v[5]>>)

\* what an address allows, where it stands, what the output carries
T_restricted == << OutKinds, <<"addr", "gov", "state", "exp", "sdr", "sender", "implicit">>,
                   <<"all", "none", "trailing zero", "no 8", "empty low">> \o [i \in 1..9 |-> <<"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8">>[i]] \o [i \in 1..9 |-> <<"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8">>[i]],
                   YN, YN, YN, YN, YN >>                     \* token, mana, timelock, expiration, deposit return
BmOf(s) ==
  LET byte(f(_)) == SumInts([i \in 1..8 |-> IF f(i - 1) THEN Pow2I(i - 1) ELSE 0])
      mk(f(_)) == IF f(8) THEN <<byte(f), 1>> ELSE IF byte(f) = 0 THEN <<>> ELSE <<byte(f)>>
      bit == CASE s \in {"m0", "o0"} -> 0 [] s \in {"m1", "o1"} -> 1 [] s \in {"m2", "o2"} -> 2 [] s \in {"m3", "o3"} -> 3 [] s \in {"m4", "o4"} -> 4 [] s \in {"m5", "o5"} -> 5 [] s \in {"m6", "o6"} -> 6 [] s \in {"m7", "o7"} -> 7 [] s \in {"m8", "o8"} -> 8 [] OTHER -> 99
      is(i) == i = bit  isnt(i) == i # bit
  IN CASE s = "all" -> AllBm [] s = "none" -> <<>> [] s = "trailing zero" -> <<255, 0>> [] s = "no 8" -> <<255>> [] s = "empty low" -> <<0, 1>>
       [] s \in {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8"} -> mk(isnt) [] OTHER -> mk(is)
B_restricted(v) ==
  LET T == EpochStart(PP(0), 2)  t == v[1]  c == 50
      R == IF v[2] = "implicit" THEN Imp(2) ELSE Restr(Ed(8), BmOf(v[3]))
      ad == IF v[2] \in {"addr", "implicit"} THEN R ELSE Ed(1)
      m == MinDeposit(PP(0), PlainOut(Restr(Ed(8), AllBm)))
      two == t \in {"basic", "nft"}
      hasMana == t \in {"basic", "account", "anchor", "nft"}
      fts == (IF v[2] = "sender" /\ t \in {"basic", "account", "nft"} THEN <<FtSender(R)>> ELSE <<>>) \o (IF v[4] /\ t \in {"basic", "foundry"} THEN <<FtTok(20, 1, One)>> ELSE <<>>)
      o0 == CASE t = "basic" -> Basic(Amt, Zero, <<CAddr(ad)>>, fts) [] t = "account" -> AccO(0, Amt, Zero, 0, ad, fts, <<>>) [] t = "nft" -> NftO(0, Amt, <<CAddr(ad)>>, fts, <<>>)
              [] t = "anchor" -> AncO(0, Amt, 0, IF v[2] = "state" THEN R ELSE Ed(1), IF v[2] = "gov" THEN R ELSE Ed(1), <<>>, <<>>)
              [] t = "foundry" -> FndO(Amt, 20, 1, FromInt(1), Zero, FromInt(9), fts, <<>>) [] t = "deleg" -> DelO(0, Amt, Amt, 30, DelegStart(PP(0), c), 0, ad)
      conds == OptS(two /\ v[8], CSdr(IF v[2] = "sdr" THEN R ELSE Ed(1), m)) \o OptS(two /\ v[6], CTime(9)) \o OptS(two /\ v[7], CExp(IF v[2] = "exp" THEN R ELSE Ed(1), 9))
      o == [o0 EXCEPT !.uc = @ \o conds, !.mana = IF hasMana /\ v[5] THEN FromInt(3) ELSE Zero]
      foundry == t = "foundry"
      ins == <<In(1, T, Basic(Amt, FromInt(10), <<CAddr(Ed(8))>>, OptS(v[4] /\ t = "basic", FtTok(20, 1, One))))>>
             \o OptS(foundry, In(2, T, AccO(20, Amt, Zero, 0, Ed(8), <<>>, <<>>)))
      outs == <<o>> \o OptS(foundry, AccO(20, Amt, Zero, 1, Ed(8), <<>>, <<>>)) \o OptS(foundry /\ ~v[4], Basic(Amt, Zero, <<CAddr(Ed(8))>>, <<FtTok(20, 1, One)>>))
      useless == \/ (~two /\ (v[6] \/ v[7] \/ v[8])) \/ (~hasMana /\ v[5]) \/ (v[4] /\ t \notin {"basic", "foundry"})
                 \/ (v[2] \in {"gov", "state"}) # (t = "anchor") \/ (v[2] = "exp" /\ ~(two /\ v[7])) \/ (v[2] = "sdr" /\ ~(two /\ v[8])) \/ (v[2] = "sender" /\ t \notin {"basic", "account", "nft"})
                 \/ (v[2] = "implicit" /\ v[3] # "all") \/ (t = "foundry" /\ v[2] # "addr")
  IN IF useless THEN Skip ELSE Finish("restricted-" \o t, 0, T, c, ins, outs, Def)

\* ================================================================== the walk ===
(* A family of cases is the product of its tables; a case is the record        *)
(* [f |-> family, d |-> positions in the tables].  The runner asks for the     *)
(* extent of the families (VERIF_IN = ""), chooses positions, and has the      *)
(* cases built.  It walks through a family in full, or takes the first modes   *)
(* tables in full and of the others every combination that deviates from their *)
(* first entries in at most so many places.                                    *)
Families == <<"sdr", "sdr3", "amounts", "tokens", "tokover", "mana", "unlock", "multi", "slots", "anchor", "chain", "counter", "issuer", "manalock", "stake", "deleg", "implicit", "caps", "sender", "unlist", "limits", "self", "shape", "scheme", "maxima", "deposit", "restricted", "return">>
Tabs(f) ==
  CASE
    f = "sdr" -> T_sdr [] f = "sdr3" -> T_sdr3 [] f = "amounts" -> T_amounts [] f = "tokens" -> T_tokens [] f = "tokover" -> T_tokover [] f = "mana" -> T_mana
    [] f = "unlock" -> T_unlock [] f = "multi" -> T_multi [] f = "slots" -> T_slots [] f = "anchor" -> T_anchor [] f = "chain" -> T_chain [] f = "counter" -> T_counter
    [] f = "issuer" -> T_issuer [] f = "manalock" -> T_manalock [] f = "stake" -> T_stake [] f = "deleg" -> T_deleg [] f = "implicit" -> T_implicit [] f = "caps" -> T_caps
    [] f = "sender" -> T_sender [] f = "unlist" -> T_unlist [] f = "limits" -> T_limits [] f = "self" -> T_self [] f = "shape" -> T_shape [] f = "scheme" -> T_scheme
    [] f = "maxima" -> T_maxima [] f = "deposit" -> T_deposit [] f = "restricted" -> T_restricted [] f = "return" -> T_return
Build(f, v) ==
  CASE
    f = "sdr" -> B_sdr(v) [] f = "sdr3" -> B_sdr3(v) [] f = "amounts" -> B_amounts(v) [] f = "tokens" -> B_tokens(v) [] f = "tokover" -> B_tokover(v) [] f = "mana" -> B_mana(v)
    [] f = "unlock" -> B_unlock(v) [] f = "multi" -> B_multi(v) [] f = "slots" -> B_slots(v) [] f = "anchor" -> B_anchor(v) [] f = "chain" -> B_chain(v) [] f = "counter" -> B_counter(v)
    [] f = "issuer" -> B_issuer(v) [] f = "manalock" -> B_manalock(v) [] f = "stake" -> B_stake(v) [] f = "deleg" -> B_deleg(v) [] f = "implicit" -> B_implicit(v) [] f = "caps" -> B_caps(v)
    [] f = "sender" -> B_sender(v) [] f = "unlist" -> B_unlist(v) [] f = "limits" -> B_limits(v) [] f = "self" -> B_self(v) [] f = "shape" -> B_shape(v) [] f = "scheme" -> B_scheme(v)
    [] f = "maxima" -> B_maxima(v) [] f = "deposit" -> B_deposit(v) [] f = "restricted" -> B_restricted(v) [] f = "return" -> B_return(v)
Modes(f) ==
  CASE
    f = "sdr" -> 3 [] f = "tokens" -> 4 [] f = "mana" -> 4 [] f = "slots" -> 4 [] f = "anchor" -> 2 [] f = "chain" -> 2 [] f = "counter" -> 3 [] f = "issuer" -> 3
    [] f = "manalock" -> 4 [] f = "stake" -> 4 [] f = "deleg" -> 5 [] f = "implicit" -> 3 [] f = "sender" -> 2 [] f = "deposit" -> 2 [] f = "restricted" -> 3
    [] OTHER -> Len(Tabs(f))

Extent(f) == [f |-> f, lens |-> SubSeq([i \in DOMAIN Tabs(f) |-> Len(Tabs(f)[i])], 1, Len(Tabs(f))), modes |-> Modes(f)]
Asked == IF IOEnv.VERIF_IN = "" THEN <<>> ELSE ndJsonDeserialize(IOEnv.VERIF_IN)
ASSUME Asked # <<>> \/ \A i \in DOMAIN Families : PrintT("FAM " \o ToJson(Extent(Families[i])))

Lanes == 8
VARIABLE n
Init == n \in 1..Min2(Lanes, Len(Asked))
Next == n + Lanes <= Len(Asked) /\ n' = n + Lanes
Spec == Init /\ [][Next]_n

Emitted ==
  LET q == Asked[n]  t == Tabs(q.f)  c == Build(q.f, [i \in DOMAIN q.d |-> t[i][q.d[i]]])
  IN IF c.kind = "skip" THEN PrintT("SKIP") ELSE PrintT("CASE " \o ToJson(c))
=============================================================================
