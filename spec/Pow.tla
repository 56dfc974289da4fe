-------------------------------- MODULE Pow ---------------------------------
(* Parallel mining: workers search disjoint parts of the nonce space until one *)
(* of them finds a nonce that satisfies the demand, all of them are told to    *)
(* stop, or the demand is impossible.                                          *)
(* Nonces of one worker are 0..Len(hits[w])-1 and wrap around; hits[w][n+1] is *)
(* whether that nonce satisfies the demand.                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Workers, Nonces
VARIABLES hits, possible, plan,     \* of the call
          pc, at, done, results,    \* workers
          watcher, cancelled, closing, main, result
vars == <<hits, possible, plan, pc, at, done, results, watcher, cancelled, closing, main, result>>

W == 1..Workers
None == [kind |-> "none"]
Plans == {"never", "before", "during"}
Init ==
  /\ hits \in [W -> [0..(Nonces - 1) -> BOOLEAN]] /\ possible \in BOOLEAN /\ plan \in Plans
  /\ ~possible => \A w \in W, n \in 0..(Nonces - 1) : ~hits[w][n]
  /\ pc = [w \in W |-> "start"] /\ at = [w \in W |-> 0] /\ done = FALSE /\ results = <<>>
  /\ watcher = "wait" /\ cancelled = (plan = "before") /\ closing = FALSE /\ main = "wait" /\ result = None

call == <<hits, possible, plan>>
Start(w) == pc[w] = "start" /\ pc' = [pc EXCEPT ![w] = IF possible THEN "check" ELSE "out"] /\ UNCHANGED <<call, at, done, results, watcher, cancelled, closing, main, result>>
Check(w) == pc[w] = "check" /\ pc' = [pc EXCEPT ![w] = IF done THEN "out" ELSE "hash"] /\ UNCHANGED <<call, at, done, results, watcher, cancelled, closing, main, result>>
Try(w) ==
  /\ pc[w] = "hash"
  /\ IF hits[w][at[w]] THEN pc' = [pc EXCEPT ![w] = "found"] /\ UNCHANGED at
     ELSE pc' = [pc EXCEPT ![w] = "check"] /\ at' = [at EXCEPT ![w] = (at[w] + 1) % Nonces]
  /\ UNCHANGED <<call, done, results, watcher, cancelled, closing, main, result>>
Tell(w) == pc[w] = "found" /\ done' = TRUE /\ pc' = [pc EXCEPT ![w] = "send"] /\ UNCHANGED <<call, at, results, watcher, cancelled, closing, main, result>>
\* there is room for a result of every worker
Send(w) == pc[w] = "send" /\ Len(results) < Workers /\ results' = Append(results, [w |-> w, n |-> at[w]]) /\ pc' = [pc EXCEPT ![w] = "out"]
           /\ UNCHANGED <<call, at, done, watcher, cancelled, closing, main, result>>
Cancel == plan = "during" /\ ~cancelled /\ cancelled' = TRUE /\ UNCHANGED <<call, pc, at, done, results, watcher, closing, main, result>>
Watch == /\ watcher = "wait"
         /\ \/ cancelled /\ done' = TRUE
            \/ closing /\ UNCHANGED done
         /\ watcher' = "gone" /\ UNCHANGED <<call, pc, at, results, cancelled, closing, main, result>>
Return == /\ main = "wait" /\ \A w \in W : pc[w] = "out"
          /\ main' = "returned" /\ closing' = TRUE
          /\ result' = IF results = <<>> THEN [kind |-> "error"] ELSE [kind |-> "nonce", w |-> Head(results).w, n |-> Head(results).n]
          /\ UNCHANGED <<call, pc, at, done, results, watcher, cancelled>>
Next == Cancel \/ Watch \/ Return \/ \E w \in W : Start(w) \/ Check(w) \/ Try(w) \/ Tell(w) \/ Send(w)
Fair == WF_vars(Cancel) /\ WF_vars(Watch) /\ WF_vars(Return) /\ \A w \in W : WF_vars(Start(w) \/ Check(w) \/ Try(w) \/ Tell(w) \/ Send(w))
Spec == Init /\ [][Next]_vars /\ Fair

\* ------------------------------------------------------------- properties ---
Error == result.kind = "error"
Found == result.kind = "nonce"
Valid == Found => hits[result.w][result.n]
\* an error needs a reason
Reason == main = "returned" /\ Error => cancelled \/ ~possible
Impossible == main = "returned" /\ ~possible => Error
Hopeless == \A w \in W, n \in 0..(Nonces - 1) : ~hits[w][n]
\* nothing waits for room
Room == \A w \in W : pc[w] = "send" => Len(results) < Workers
Stops == (cancelled \/ ~Hopeless \/ ~possible) ~> (main = "returned")
Quiet == (main = "returned") ~> (watcher = "gone" /\ \A w \in W : pc[w] = "out")
\* what a caller can see
Outcome == result.kind
=============================================================================
