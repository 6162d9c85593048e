------------------------- MODULE DataCallbacks_Gen -------------------------
(* What can be done to a device with data callbacks from outside: feed it while
   it runs or not, let the n-th callback end the run or fail, stop it.         *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANT Layouts
VARIABLES lay, have, dead, last
GView == [lay |-> lay, have |-> have, dead |-> dead]
gvars == <<lay, have, dead, last>>
GInit == lay = 0 /\ have = 0 /\ dead = TRUE /\ last = [op |-> "init"]
Lab(op, how, n) == last' = [op |-> op, how |-> how, n |-> n]
\* have: messages outstanding, roughly (0, 1, 2: none, few, many)
Feed(n) == ~dead /\ have + n <= 2 /\ have' = have + n /\ Lab("feed", "", n) /\ UNCHANGED <<lay, dead>>
RunIdle(how) == ~dead /\ have' = 0 /\ Lab("run", how, 0) /\ UNCHANGED <<lay, dead>>       \* all is handed out, then a stop request
RunPart(how, n) == ~dead /\ have' \in {h \in {0, 1, 2} : h >= (IF have = 2 THEN 1 ELSE 0)} /\ Lab("run", how, n) /\ UNCHANGED <<lay, dead>>
RunThrow(n) == ~dead /\ dead' = TRUE /\ have' = 0 /\ Lab("run", "throw", n) /\ UNCHANGED lay
Task == ~dead /\ Lab("task", "", 0) /\ UNCHANGED <<lay, have, dead>>
Fresh(x) == dead /\ dead' = FALSE /\ lay' = x /\ have' = 0 /\ Lab("conf", "", x)
GNext == \/ \E n \in {1, 2} : Feed(n) \/ RunThrow(n) \/ \E how \in {"false", "stop", "falsefeed", "stopfeed"} : RunPart(how, n)
         \/ RunIdle("idle") \/ RunIdle("idlefeed") \/ Task \/ \E x \in Layouts : Fresh(x)
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
