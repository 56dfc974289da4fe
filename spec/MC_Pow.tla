------------------------------ MODULE MC_Pow --------------------------------
(* Every interleaving of mining, discovery and cancellation; emits the         *)
(* situations and what the caller saw, for replay on the real miner.           *)
EXTENDS Pow, TLC, Json
\* position of the first nonce of a worker that satisfies the demand
First(w) == IF \A n \in 0..(Nonces - 1) : ~hits[w][n] THEN -1 ELSE CHOOSE n \in 0..(Nonces - 1) : hits[w][n] /\ \A m \in 0..(n - 1) : ~hits[w][m]
Emit == main = "returned" /\ watcher = "gone" =>
  PrintT("CASE " \o ToJson([first |-> [w \in W |-> First(w)], possible |-> IF possible THEN 1 ELSE 0, plan |-> plan, outcome |-> Outcome]))
=============================================================================
