----------------------------- MODULE Semaphore -----------------------------
(* tools::Semaphore: a counter, threads that wait for it to be positive, and
   signals. One action per critical section of the code.                      *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, InitCount, MaxOps
VARIABLES count, waiting, passed, signals, ops
vars == <<count, waiting, passed, signals, ops>>

Init == count = InitCount /\ waiting = {} /\ passed = 0 /\ signals = 0 /\ ops = 0
Call(t)   == /\ t \notin waiting /\ ops < MaxOps /\ ops' = ops + 1
             /\ waiting' = waiting \cup {t} /\ UNCHANGED <<count, passed, signals>>
Pass(t)   == /\ t \in waiting /\ count > 0
             /\ waiting' = waiting \ {t} /\ count' = count - 1 /\ passed' = passed + 1 /\ UNCHANGED <<signals, ops>>
Signal    == /\ ops < MaxOps /\ ops' = ops + 1
             /\ count' = count + 1 /\ signals' = signals + 1 /\ UNCHANGED <<waiting, passed>>
Next == Signal \/ \E t \in Threads : Call(t) \/ Pass(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Pass(t))

NeverTooMany == passed <= InitCount + signals
CountIsRight == count = InitCount + signals - passed
\* somebody gets through as long as there is something to take: no wake-up is lost
NoLostWakeUp == [](count > 0 /\ waiting # {} => <>(count = 0 \/ waiting = {}))
=============================================================================
