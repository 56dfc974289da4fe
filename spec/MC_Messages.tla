----------------------------- MODULE MC_Messages ----------------------------
(* Every message with up to MaxDev fields away from empty: its bytes decode to *)
(* it, no shorter bytes decode, messages differ in bytes and in JSON.  Emits    *)
(* them for replay on the real code.                                            *)
EXTENDS Messages, Json
CONSTANT MaxDev

Rep(x, n) == SubSeq([j \in 1..n |-> x], 1, n)
RawV(n) == [b |-> <<n>>, j |-> <<"s", <<n>>>>]
RECURSIVE Base(_)
BaseMsg(m) == [n \in {Types[m][j].n : j \in DOMAIN Types[m]} |-> Base(Types[m][CHOOSE j \in DOMAIN Types[m] : Types[m][j].n = n].t)]
Base(t) ==
  CASE t.k \in {"num", "big", "time"} -> Zero
    [] t.k = "int" -> [neg |-> 0, abs |-> Zero]
    [] t.k \in {"enum", "bool"} -> 0
    [] t.k = "float" -> [b |-> Rep(0, 8), s |-> <<48>>]
    [] t.k \in {"str", "list", "opt"} -> <<>>
    [] t.k = "bytes" -> Rep(0, t.w)
    [] t.k = "raw" -> RawV(1)
    [] t.k = "msg" -> BaseMsg(t.t)
RECURSIVE Some(_)
\* other values of a type
SomeMsg(m) == UNION {LET f == Types[m][j] IN {[BaseMsg(m) EXCEPT ![f.n] = x] : x \in Some(f.t)} : j \in DOMAIN Types[m]}
Some(t) ==
  CASE t.k = "num" -> {One, Sub(Pow2(8 * t.w), One)}
    [] t.k = "big" -> {One, Sub(Pow2(64), One)}
    [] t.k = "time" -> {One, Sub(Pow2(63), One)}
    [] t.k = "int" -> {[neg |-> 0, abs |-> Sub(Pow2(63), One)], [neg |-> 1, abs |-> One], [neg |-> 1, abs |-> Pow2(63)]}
    [] t.k = "enum" -> 1..(Len(States[t.t]) - 1)
    [] t.k = "bool" -> {1}
    [] t.k = "float" -> {}
    [] t.k = "str" -> {<<97>>, <<48, 120>>, Rep(98, 255)}
    [] t.k = "bytes" -> {Rep(255, t.w), Rep(0, t.w - 1) \o <<1>>}
    [] t.k = "raw" -> {RawV(2)}
    [] t.k = "list" -> LET e == t.e[1] IN {<<x>> : x \in {Base(e)} \cup Some(e)} \cup {<<Base(e), x>> : x \in Some(e)}
    [] t.k = "msg" -> SomeMsg(t.t)
    [] t.k = "opt" -> {<<x>> : x \in {BaseMsg(t.t)} \cup SomeMsg(t.t)}

VARIABLES m, v, d
vars == <<m, v, d>>
Init == m \in DOMAIN Types /\ v = BaseMsg(m) /\ d = <<>>
\* fields in order, each once
Next == /\ Len(d) < MaxDev
        /\ \E j \in DOMAIN Types[m] : /\ (IF d = <<>> THEN 0 ELSE d[Len(d)]) < j
                                      /\ \E x \in Some(Types[m][j].t) : v' = [v EXCEPT ![Types[m][j].n] = x]
                                      /\ d' = Append(d, j)
        /\ m' = m
Spec == Init /\ [][Next]_vars

B == Enc(Msg(m), v)
\* floats and parts keep only their bytes
RECURSIVE Same(_, _, _)
Same(t, x, y) ==
  CASE t.k \in {"float", "raw"} -> x.b = y.b
    [] t.k = "msg" -> \A j \in DOMAIN Types[t.t] : Same(Types[t.t][j].t, x[Types[t.t][j].n], y[Types[t.t][j].n])
    [] t.k = "list" -> Len(x) = Len(y) /\ \A j \in DOMAIN x : Same(t.e[1], x[j], y[j])
    [] OTHER -> x = y
BackLaw == LET r == Dec(Msg(m), B) IN r # <<>> /\ r[2] = <<>> /\ Same(Msg(m), r[1], v)
RestLaw == LET r == Dec(Msg(m), B \o <<9>>) IN r # <<>> /\ r[2] = <<9>>
\* within the last bytes, and some before
ShortLaw == \A n \in {n \in 0..(Len(B) - 1) : n < 6 \/ n > Len(B) - 40} : Dec(Msg(m), SubSeq(B, 1, n)) = <<>>
\* a change shows in both forms
DiffLaw == d # <<>> => (B # Enc(Msg(m), BaseMsg(m)) /\ Js(Msg(m), v) # Js(Msg(m), BaseMsg(m)))
Emit == PrintT("CASE " \o ToJson([t |-> m, v |-> v]))
=============================================================================
