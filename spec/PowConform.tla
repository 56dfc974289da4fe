----------------------------- MODULE PowConform -----------------------------
(* Judges runs of the real miner by the properties of Pow.tla as a caller sees *)
(* them.  A run: workers, target, plan of cancellation, whether the harness    *)
(* cancelled at all before the answer, the answer and the last eight bytes of  *)
(* the hash the nonce answered gives.                                          *)
EXTENDS Integers, Sequences, Lanes

MaxZeros == 64
RECURSIVE Low(_)
Low(x) == IF x % 2 = 1 THEN 0 ELSE 1 + Low(x \div 2)
\* trailing zeros of the little endian number b[j], b[j+1] ...
RECURSIVE Zeros(_, _)
Zeros(b, j) == IF j > Len(b) THEN 0 ELSE IF b[j] = 0 THEN 8 + Zeros(b, j + 1) ELSE Low(b[j])

ToSet(s) == {s[j] : j \in DOMAIN s}
Mine(r) ==
  UNION {If(r.res = "hang", "does not end"),
         If(r.res = "panic", "panic"),
         If(r.res = "nonce" /\ Zeros(r.tail, 1) < r.target, "nonce does not satisfy the demand"),
         If(r.res = "nonce" /\ r.target > MaxZeros, "nonce for an impossible demand"),
         If(r.res = "error" /\ r.cancelled = 0 /\ r.target <= MaxZeros, "error without a reason"),
         If(r.res \in {"nonce", "error"} /\ r.outcomes # <<>> /\ r.res \notin ToSet(r.outcomes), "outcome the specification does not have"),
         If(r.left # 0, "leaves goroutines running"),
         If(r.changed # 0, "changes the data")}
Class(r) == "mine:" \o r.plan \o (IF r.target > MaxZeros THEN ":impossible" ELSE IF r.target > 40 THEN ":hopeless" ELSE "") \o ":" \o r.res
Judge(k) ==
  LET r == Recs[k] IN
  CASE r.op = "mine" -> Say(k, Mine(r), {Class(r)} \cup If(r.together > 1, "together") \cup If(r.outcomes # <<>>, "enumerated"), {})
    [] r.op = "zeros" -> Say(k, If(r.got # Zeros(r.tail, 1), "trailing zeros"), {"zeros"}, {})
Judged == Judge(i)
=============================================================================
