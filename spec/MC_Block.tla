------------------------------ MODULE MC_Block -------------------------------
(* All blocks around every boundary of the rules, one family per rule.          *)
EXTENDS Block
CONSTANT Span                    \* how many slots after the genesis are looked at

Base(p) == [p |-> p, ver |-> PP(p).version, net |-> 1, t |-> Zero, commit |-> Zero, body |-> "basic", strong |-> <<1>>, weak |-> <<>>, shallow |-> <<>>,
            pk |-> "none", ptag |-> 0, pdata |-> 0, cre |-> Zero, hascin |-> 0, cin |-> Zero, hsv |-> PP(p).version, txlen |-> 0]
\* first and last moment of slot s
Moments(p, s) == {T!SlotStart(TP(PP(p)), s), T!SlotEnd(TP(PP(p)), s)}
At(p, s, c) == [Base(p) EXCEPT !.t = T!SlotStart(TP(PP(p)), s), !.commit = c]
Far == {Sub(Pow2(32), FromInt(k)) : k \in {1, 2, 9}}
Until(p) == PP(p).genesis + (IF p = 0 THEN 3 * Span ELSE Span)
Slots(p) == {FromInt(s) : s \in PP(p).genesis..Until(p)}
Near(p) == {FromInt(s) : s \in 0..Until(p)} \cup Far
Around(p, s) == {Zero, FromInt(PP(p).genesis), FromInt(PP(p).genesis + 1), Monus(s, FromInt(PP(p).minca)), Monus(s, FromInt(PP(p).maxca))} \cup Far

WindowOf(p) == UNION {{[At(p, s, c) EXCEPT !.t = m, !.body = b] : m \in Moments(p, s), b \in {"basic", "validation"}} : <<s, c>> \in Slots(p) \X Near(p)}
TxOf(p) == UNION {{[At(p, s, c) EXCEPT !.pk = "tx", !.cre = x] : x \in {s, Monus(s, One), Add(s, One), Zero} \cup Far}
                  \cup {[At(p, s, c) EXCEPT !.pk = "tx", !.cre = s, !.hascin = 1, !.cin = i] : i \in Near(p)} : s \in Slots(p), c \in UNION {Around(p, s) : s \in Slots(p)}}
Labels == 1..3
Seqs == {<<>>} \cup {<<x>> : x \in Labels} \cup {<<x, y>> : x, y \in Labels}
Fine(p) == [At(p, FromInt(PP(p).genesis + PP(p).minca + 1), FromInt(PP(p).genesis + 1)) EXCEPT !.cre = FromInt(PP(p).genesis)]
Counted(n, from) == [j \in 1..n |-> from + j]
Counts == {0, 1, 7, 8, 9, 49, 50, 51}
Parents(p) == {[Fine(p) EXCEPT !.strong = a, !.weak = b, !.shallow = c, !.body = k] : a, b, c \in Seqs, k \in {"basic", "validation"}}
              \cup {[Fine(p) EXCEPT !.strong = Counted(x, 0), !.weak = Counted(y, 60), !.shallow = Counted(z, 30), !.body = k] : x \in Counts, y \in {0, 8, 9, 50, 51}, z \in {0, 8, 9, 50, 51}, k \in {"basic", "validation"}}
Versions(p) == {[Fine(p) EXCEPT !.ver = v, !.net = n, !.hsv = h, !.body = k] : v \in 0..5, n \in {0, 1}, h \in 0..5, k \in {"basic", "validation"}}
Payloads(p) == {[Fine(p) EXCEPT !.pk = k, !.ptag = x, !.pdata = y, !.strong = Counted(z, 0)] : k \in {"tagged", "cand"}, x \in {0, 1, 63, 64, 65}, y \in {0, 1, 8191, 8192, 8193}, z \in {1, 8}}

VARIABLE b
Init == b \in UNION {WindowOf(p) : p \in {0, 1, 3}} \cup UNION {TxOf(p) : p \in {1, 3}} \cup Parents(1) \cup UNION {Versions(p) \cup Payloads(p) : p \in {1, 2}}
Next == FALSE /\ UNCHANGED b
Spec == Init /\ [][Next]_b
Lawful == BlockFailed(b) = {} => Laws(b) = {}
Emit == PrintT("CASE " \o ToJson(b))
==============================================================================
