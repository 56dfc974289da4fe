------------------------------ MODULE MC_Copies -----------------------------
(* Histories of an object and its copy, and of lists: every one up to MaxOps    *)
(* steps, with the laws of copies, comparisons and lists.  Emits them for       *)
(* replay on the real code.                                                     *)
EXTENDS Copies, Json
CONSTANTS MaxOps, MaxList

\* the object has three parts that switch between two values, and grows
New == [part |-> [k \in 0..2 |-> 0], grown |-> <<>>]
Switch(x, k) == [x EXCEPT !.part[k] = 1 - @]
Grow(x, k, n) == [x EXCEPT !.grown = Append(@, <<k, n>>)]
HistOps == {[op |-> "copy", k |-> 0]} \cup [op : {"edito", "editc"}, k : 0..1] \cup [op : {"growo", "growc"}, k : 0..0] \cup {[op |-> "edito", k |-> 2], [op |-> "editc", k |-> 2]}
Entries == {<<t, v>> : t \in 1..2, v \in 1..2} \cup {<<3, 1>>}
Inits == {<<>>} \cup {<<x>> : x \in Entries} \cup {<<x, y>> : x, y \in Entries}
ListOps == [o : {"put"}, t : 1..3, v : 1..2] \cup [o : {"remove"}, t : 1..3, v : 1..2] \cup {[o |-> "sort", t |-> 1, v |-> 1]} \cup [o : {"set"}, t : 1..1, v : 1..2]

VARIABLES mode, o, c, h, l, init
vars == <<mode, o, c, h, l, init>>
Init == \/ mode = "history" /\ o = New /\ c = New /\ h = <<[op |-> "copy", k |-> 0]>> /\ l = <<>> /\ init = <<>>
        \/ mode \in {"features", "conditions", "keys"} /\ o = New /\ c = New /\ h = <<>> /\ init \in Inits /\ l = IF mode = "keys" THEN Sorted(init) ELSE init
Hist(s) == /\ CASE s.op = "copy" -> o' = o /\ c' = o
                [] s.op = "edito" -> o' = Switch(o, s.k) /\ c' = c
                [] s.op = "editc" -> o' = o /\ c' = Switch(c, s.k)
                [] s.op = "growo" -> o' = Grow(o, s.k, Len(h)) /\ c' = c
                [] s.op = "growc" -> o' = o /\ c' = Grow(c, s.k, Len(h))
           /\ h' = Append(h, s) /\ UNCHANGED <<mode, l, init>>
\* the list after a step; of the orders by type the one that keeps the rest
After(s) ==
  IF mode = "keys" THEN CASE s.o = "put" -> AddKey(l, <<s.t, s.v>>) [] s.o = "remove" -> RemoveKey(l, <<s.t, s.v>>) [] s.o = "sort" -> Sorted(l) [] OTHER -> l
  ELSE CASE s.o = "put" -> Put(l, s.t, s.v) [] s.o = "remove" -> Without(l, s.t) [] s.o = "sort" -> SortSeq(l, LAMBDA x, y : x[1] < y[1]) [] OTHER -> l
List(s) == l' = After(s) /\ h' = Append(h, s) /\ UNCHANGED <<mode, o, c, init>>
Next == IF mode = "history" THEN Len(h) < MaxOps /\ \E s \in HistOps : Hist(s)
        ELSE Len(h) < MaxList /\ \E s \in ListOps : List(s)
Spec == Init /\ [][Next]_vars

\* what a history makes of each only depends on the steps on it since the copy
Since == {j \in DOMAIN h : h[j].op = "copy" /\ \A k \in (j + 1)..Len(h) : h[k].op # "copy"}
Touched(p) == \E j \in DOMAIN h : (\A k \in Since : j > k) /\ h[j].op \in p
CopyLaw == mode = "history" => /\ (~Touched({"edito", "growo", "editc", "growc"}) => o = c)
                               /\ (Touched({"growo"}) \/ Touched({"growc"}) => (o # c))
                               /\ \A k \in 0..2 : (o.part[k] = c.part[k]) <=> (Cardinality({j \in DOMAIN h : (\A n \in Since : j > n) /\ h[j].op \in {"edito", "editc"} /\ h[j].k = k}) % 2 = 0)
ListLaw == mode \in {"features", "conditions"} =>
             /\ (Typed(init) => Typed(l))
             /\ \A s \in ListOps : ListStep(mode, l, s, IF s.o = "remove" THEN Cardinality(At(l, s.t) \cap {LeastOf(At(l, s.t) \cup {99})}) ELSE IF Typed(l) THEN 1 ELSE 0, After(s))
             /\ \A t \in 1..3, v \in 1..2 : LET p == Put(l, t, v) IN Put(p, t, v) = p /\ (Typed(l) => (Without(p, t) = Without(l, t) /\ At(Without(l, t), t) = {}))
KeysLaw == mode = "keys" => /\ Sorted(l) = l
                            /\ \A x \in Entries : HasKey(AddKey(l, x), x) /\ AddKey(AddKey(l, x), x) = AddKey(l, x)
                            /\ (Cardinality({init[j] : j \in DOMAIN init}) = Len(init) => NoTwins(l) = l)
OrderLaw == \A x, y, z \in Entries : /\ Sign(x, y) + Sign(y, x) = 2
                                     /\ (Sign(x, y) = 1 <=> x = y)
                                     /\ (Sign(x, y) = 0 /\ Sign(y, z) = 0 => Sign(x, z) = 0)
Full == IF mode = "history" THEN Len(h) = MaxOps ELSE Len(h) = MaxList
Emit == Full => PrintT("CASE " \o (IF mode = "history" THEN ToJson([op |-> "history", ops |-> h]) ELSE ToJson([op |-> "list", kind |-> mode, init |-> init, steps |-> h])))
=============================================================================
