------------------------------- MODULE Unlocks ------------------------------
(* Who may consume an output.  The unlocks of a transaction are judged in the  *)
(* order of its inputs; the state carried along is what has been opened so far *)
(*   at    pairs <<address, index>>: the address was opened by that input      *)
(*   sigs  triples <<index, key, address>>: signatures that can be referred to *)
(*   ref   pairs <<address, index>>: further inputs opened through an address  *)
(*   bad   the rules violated (judging stops at the first violation)           *)
(* Indices are 0-based as on the wire.                                         *)
EXTENDS Syntax

\* ----------------------------------------------------------- chains of a tx ---
\* the identity of the chain an output belongs to; a chain that is created by
\* the j-th output is <<type, -j>>, one created by an input has its own symbol
InChain(in) ==
  CASE in.out.t \in ChainTypes -> <<in.out.t, IF in.out.id = 0 THEN in.own ELSE in.out.id>>
    [] in.out.t = "foundry"    -> FndKey(in.out)
    [] IsImplicit(in.out)      -> <<"account", in.own>>
    [] OTHER                   -> <<>>
OutChain(outs, j) ==
  CASE outs[j].t \in ChainTypes -> <<outs[j].t, IF outs[j].id = 0 THEN 0 - j ELSE outs[j].id>>
    [] outs[j].t = "foundry"    -> FndKey(outs[j])
    [] OTHER                    -> <<>>
InWith(r, c)   == {i \in DOMAIN r.ins : InChain(r.ins[i]) = c}
OutWith(r, c)  == {j \in DOMAIN r.tx.outs : OutChain(r.tx.outs, j) = c}
NextOf(r, i)   == OutWith(r, InChain(r.ins[i]))          \* {} or {j}

HasCmt(r) == r.cmt >= 0

\* ------------------------------------------------------------------- owner ---
NoAddr == [k |-> "none", n |-> 0]
\* the address that has to consent; "none" if the transition leaves it undefined
OwnerOf(r, i) ==
  LET o == r.ins[i].out IN
  CASE o.t = "anchor" ->
         LET nx == NextOf(r, i) IN
         IF nx = {} THEN UC(o, UGov).a
         ELSE LET n == r.tx.outs[CHOOSE j \in nx : TRUE] IN
              IF n.si = o.si THEN UC(o, UGov).a ELSE IF n.si = o.si + 1 THEN UC(o, UState).a ELSE NoAddr
    [] o.t = "foundry" -> UC(o, UImm).a
    [] OTHER -> UC(o, UAddr).a
\* an expired output belongs to the return address, one that may or may not be
\* expired to nobody
Claimant(r, i) ==
  LET o == r.ins[i].out  pp == PP(r.p) IN
  IF ~HasUC(o, UExp) THEN OwnerOf(r, i)
  ELSE IF ~HasCmt(r) THEN NoAddr
  ELSE LET u == UC(o, UExp) IN
       IF FutureBounded(pp, r.cmt) >= u.slot THEN u.a
       ELSE IF PastBounded(pp, r.cmt) < u.slot THEN OwnerOf(r, i)
       ELSE NoAddr

\* ----------------------------------------------------------------- opening ---
Opened(st, key) == \E p \in st.at : p[1] = key

RECURSIVE Opens(_, _, _)
\* does unlock u open address a, given what is open already
Opens(st, a, u) ==
  CASE a.k \in {"acc", "anc", "nft"} -> u.k = a.k /\ <<AKey(a), u.i>> \in st.at
    [] a.k \in {"ed", "imp"} ->
         \/ u.k = "ref" /\ \E s \in st.sigs : s[1] = u.i /\ s[2] = a.n
         \/ u.k = "sig" /\ ~Opened(st, AKey(a)) /\ u.bad = 0 /\ u.key = a.n
    [] a.k = "multi" ->
         \/ u.k = "ref" /\ <<AKey(a), u.i>> \in st.at
         \/ /\ u.k = "multi" /\ ~Opened(st, AKey(a)) /\ Len(u.subs) = Len(a.subs)
            /\ \A m \in DOMAIN u.subs : u.subs[m].k = "empty" \/ (u.subs[m].k # "multi" /\ Opens(st, a.subs[m].a, u.subs[m]))
            /\ SumInts([m \in DOMAIN u.subs |-> IF u.subs[m].k = "empty" THEN 0 ELSE a.subs[m].w]) >= a.thr
    [] OTHER -> FALSE

\* what becomes open by it
AfterOpen(st, a, u, i) ==
  LET key == AKey(a) IN
  CASE u.k = "sig" -> [st EXCEPT !.at = @ \cup {<<key, i>>}, !.sigs = @ \cup {<<i, u.key, key>>}]
    [] u.k = "multi" -> [st EXCEPT !.at = @ \cup {<<key, i>>}]
    [] a.k \in {"ed", "imp"} ->
         LET s == CHOOSE x \in st.sigs : x[1] = u.i IN
         [st EXCEPT !.ref = @ \cup {<<s[3], i>>}, !.at = IF Opened(st, key) THEN @ ELSE @ \cup {<<key, i>>}]
    [] OTHER -> [st EXCEPT !.ref = @ \cup {<<key, i>>}]

\* consuming a chain output opens the address of the chain; an anchor's only
\* if its state moves on
AfterChain(st, r, i) ==
  LET o  == r.ins[i].out
      nx == NextOf(r, i)
      moves == o.t \in {"account", "nft"}
               \/ (o.t = "anchor" /\ \E j \in nx : r.tx.outs[j].t = "anchor" /\ r.tx.outs[j].si = o.si + 1)
      key == <<ChainAddrKind(o.t), InChain(r.ins[i])[2]>>
  IN IF ~moves THEN st
     ELSE [st EXCEPT !.at = {p \in @ : p[1] # key} \cup {<<key, i - 1>>}, !.ref = {p \in @ : p[1] # key}]

UnlockProps(o) ==
  IF HasUC(o, UExp) THEN "V04,V05" ELSE IF o.t = "anchor" THEN "V04,V06" ELSE "V04"

RECURSIVE UnlockFold(_, _, _)
UnlockFold(r, st, i) ==
  IF i > Len(r.ins) \/ st.bad # {} THEN st
  ELSE LET o == r.ins[i].out
           a == Underlying(Claimant(r, i))
           u == r.unl[i]
           ps == UnlockProps(o)
       IN IF a.k = "none" THEN [st EXCEPT !.bad = {ps \o ":no address to unlock"}]
          ELSE IF ~Opens(st, a, u) THEN [st EXCEPT !.bad = {ps \o ":not unlocked"}]
          ELSE UnlockFold(r, AfterChain(AfterOpen(st, a, u, i - 1), r, i), i + 1)

Unlocked(r) == UnlockFold(r, [at |-> {}, sigs |-> {}, ref |-> {}, bad |-> {}], 1)

\* input i (0-based) was opened through an address
OpenedBy(st, i, key) == <<key, i>> \in st.at \/ (Opened(st, key) /\ <<key, i>> \in st.ref)
=============================================================================
