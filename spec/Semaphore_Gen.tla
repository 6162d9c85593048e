--------------------------- MODULE Semaphore_Gen ---------------------------
(* Replay grain: after each operation the waiters that can pass have passed.  *)
EXTENDS Semaphore, Json, Sequences
VARIABLES last
GView == [count |-> count, waiting |-> Cardinality(waiting)]
Min(a, b) == IF a < b THEN a ELSE b
GInit == Init /\ last = [op |-> "init"]
\* n: number of waits that complete because of the step
Step(op, n, arg) == last' = [op |-> op, n |-> n, arg |-> arg]
GWait == \E t \in Threads : /\ t \notin waiting
          /\ \A u \in Threads \ waiting : t <= u
          /\ IF count > 0 THEN count' = count - 1 /\ UNCHANGED waiting /\ Step("wait", 1, 0)
                          ELSE waiting' = waiting \cup {t} /\ UNCHANGED count /\ Step("wait", 0, 0)
\* k signals right after one another
GSignal == \E k \in 1..4 :
          LET n == Min(k + count, Cardinality(waiting)) IN
          /\ count + k - n <= 4
          /\ \E done \in SUBSET waiting : Cardinality(done) = n /\ waiting' = waiting \ done
          /\ count' = count + k - n /\ Step("signal", n, k)
GNext == (GWait \/ GSignal) /\ UNCHANGED <<passed, signals, ops>>
GSpec == GInit /\ [][GNext]_<<vars, last>>
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
