---------------------------- MODULE EventBus_Gen ----------------------------
(* Replay grain: an emission is one step. Callbacks have modes: plain, once
   (unsubscribes itself when called), relay (on channel 1: emits on channel 2).
   A generation bit tells a replaced callback from its successor.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Subs, Modes1, Modes2
VARIABLES cb, last
Chans == {1, 2}
NoCb == [m |-> "none", g |-> 0]
Modes(c) == IF c = 1 THEN Modes1 ELSE Modes2
GInit == cb = [s \in Subs |-> [c \in Chans |-> NoCb]] /\ last = [op |-> "init"]
GView == cb
Flip(x) == 1 - x
GSub == \E s \in Subs, c \in Chans : \E m \in Modes(c) :
          /\ cb' = [cb EXCEPT ![s][c] = [m |-> m, g |-> Flip(cb[s][c].g)]]
          /\ last' = [op |-> "sub", s |-> s, c |-> c, m |-> m, g |-> Flip(cb[s][c].g), known |-> cb[s][c].m # "none", calls |-> {}]
GUnsub == \E s \in Subs, c \in Chans :
          /\ cb' = [cb EXCEPT ![s][c] = NoCb]
          /\ last' = [op |-> "unsub", s |-> s, c |-> c, m |-> "", g |-> 0, known |-> cb[s][c].m # "none", calls |-> {}]
Here(x, c) == {s \in Subs : x[s][c].m # "none"}
Spent(x, c) == [s \in Subs |-> [d \in Chans |-> IF d = c /\ x[s][d].m = "once" THEN NoCb ELSE x[s][d]]]
\* n: how often it is called by the emission
Calls(x, c, k) == {[s |-> s, c |-> c, g |-> x[s][c].g, n |-> IF x[s][c].m = "once" /\ k > 0 THEN 1 ELSE k] : s \in Here(x, c)}
GEmit == \E c \in Chans :
          LET relays == IF c = 1 THEN Cardinality({s \in Subs : cb[s][1].m = "relay"}) ELSE 0
              x1 == Spent(cb, c)
          IN /\ cb' = IF relays > 0 THEN Spent(x1, 2) ELSE x1
             /\ last' = [op |-> "emit", s |-> 0, c |-> c, m |-> "", g |-> 0, known |-> TRUE,
                         calls |-> {y \in Calls(cb, c, 1) \cup (IF relays > 0 THEN Calls(cb, 2, relays) ELSE {}) : y.n > 0}]
GNext == GSub \/ GUnsub \/ GEmit
GSpec == GInit /\ [][GNext]_<<cb, last>>
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
