------------------------------ MODULE Provider ------------------------------
(* The epoch-based provider of protocol versions as a state machine.          *)
(* Versions are numbers, parameters and their hashes are abstract: version v   *)
(* has the parameters "Pv".  0 stands for "none", -1 for an error.             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Genesis, SlotsPerEpoch     \* the time parameters every version shares

Empty == [params |-> {}, future |-> <<>>, start |-> <<>>, latest |-> 0, committed |-> 0, committedMax |-> 0, cslot |-> 0, cmax |-> 0]
Vers(s) == DOMAIN s.start
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

EpochAt(slot) == IF slot <= Genesis THEN 0 ELSE (slot - Genesis) \div SlotsPerEpoch
\* the version in force in an epoch
InForce(s, e) == LET c == {v \in Vers(s) : s.start[v] <= e} IN IF c = {} THEN -1 ELSE Max(c)
Rules(s, v) == IF v \in s.params THEN v ELSE -1

Put(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]

\* result of an action: new state and whether it failed
R(s, ok) == [s |-> s, ok |-> ok]
Raise(s, cur, slot) ==
  IF s.latest = 0 THEN [v |-> cur, ok |-> TRUE]
  ELSE LET v == InForce(s, EpochAt(slot)) IN
       IF v = -1 THEN [v |-> cur, ok |-> FALSE]
       ELSE IF cur = 0 \/ v > cur THEN (IF v \in s.params THEN [v |-> v, ok |-> TRUE] ELSE [v |-> cur, ok |-> FALSE])
       ELSE [v |-> cur, ok |-> TRUE]
Update(s) == LET a == Raise(s, s.committed, s.cslot)  b == Raise(s, s.committedMax, s.cmax)
             IN R([s EXCEPT !.committed = a.v, !.committedMax = b.v], a.ok)

AddVersion(s, v, e) == Update(IF v \in Vers(s) THEN s ELSE [s EXCEPT !.start = Put(s.start, v, e)])
AddFuture(s, v, e, h) == R([s EXCEPT !.start = IF v \in Vers(s) THEN s.start ELSE Put(s.start, v, e), !.future = Put(s.future, v, h)], TRUE)
AddParams(s, v) == R([s EXCEPT !.params = s.params \cup {v}, !.future = [j \in DOMAIN s.future \ {v} |-> s.future[j]], !.latest = Max({s.latest, v})], TRUE)
Commit(s, slot) == Update([s EXCEPT !.cslot = slot, !.cmax = Max({s.cmax, slot})])

Step(s, a) ==
  CASE a.op = "params"  -> AddParams(s, a.v)
    [] a.op = "version" -> AddVersion(s, a.v, a.x)
    [] a.op = "add"     -> AddVersion(AddParams(s, a.v).s, a.v, a.x)
    [] a.op = "future"  -> AddFuture(s, a.v, a.x, a.h)
    [] a.op = "commit"  -> Commit(s, a.x)

\* --------------------------------------------------------------- queries ---
ForEpoch(s, e) == IF InForce(s, e) = -1 THEN -1 ELSE Rules(s, InForce(s, e))
ForSlot(s, x)  == IF s.latest = 0 THEN -1 ELSE ForEpoch(s, EpochAt(x))
VersionAt(s, x) == IF s.latest = 0 THEN -1 ELSE InForce(s, EpochAt(x))
StartOf(s, v)  == IF v \in Vers(s) THEN s.start[v] ELSE -1
HashOf(s, v)   == IF v \in s.params THEN "P" ELSE IF v \in DOMAIN s.future THEN s.future[v] ELSE ""
\* what the hash of the announced versions is a hash of; undefined while some version has neither parameters nor a hash
Content(s) == {<<v, s.start[v], HashOf(s, v)>> : v \in Vers(s)}
Hashable(s) == \A v \in Vers(s) : HashOf(s, v) # ""

\* ------------------------------------------------------------------ laws ---
LatestIsHighest(s) == s.latest = (IF s.params = {} THEN 0 ELSE Max(s.params))
=============================================================================
