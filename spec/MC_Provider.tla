---------------------------- MODULE MC_Provider -----------------------------
(* All histories of announcements up to a length; the histories are replayed   *)
(* on the real provider.                                                       *)
EXTENDS Provider, TLC, Json
CONSTANTS Versions, Epochs, CommitEpochs, Depth

VARIABLES s, hist, monotone
Slots == {Genesis + e * SlotsPerEpoch : e \in CommitEpochs}
Actions ==
  [op : {"params"}, v : Versions, x : {0}, h : {""}]
    \cup [op : {"version", "add"}, v : Versions, x : Epochs, h : {""}]
    \cup [op : {"future"}, v : Versions, x : Epochs, h : {"P"}]
    \cup [op : {"future"}, v : {4}, x : {1}, h : {"X"}]
    \cup [op : {"commit"}, v : {0}, x : Slots, h : {""}]
Init == s = Empty /\ hist = <<>> /\ monotone = TRUE
Next == /\ Len(hist) < Depth
        /\ \E a \in Actions : LET r == Step(s, a) IN
             /\ s' = r.s
             /\ hist' = Append(hist, a)
             /\ monotone' = (monotone /\ (a.op = "commit" => a.x >= s.cslot))
Spec == Init /\ [][Next]_<<s, hist, monotone>>

Latest == LatestIsHighest(s)
\* the rules of an epoch only change when a version with a start not later is announced
Forces == \A e \in Epochs : LET v == InForce(s, e) IN v # -1 => s.start[v] <= e /\ \A w \in Vers(s) : w > v => s.start[w] > e
\* as long as the reported slots do not go back it does not matter which of them counts
Consistent == monotone => s.committed = s.committedMax
Committed == s.committed = 0 \/ s.committed \in s.params
NeverBack == [][s'.committed >= s.committed /\ s'.latest >= s.latest]_<<s, hist, monotone>>
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
