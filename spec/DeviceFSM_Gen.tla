--------------------------- MODULE DeviceFSM_Gen ---------------------------
(* Behaviours of DeviceFSM at the grain a driver can step the real state machine:
   the worker is held at gates inside the user callbacks (preparation, first
   subscriber of a visit, state handler), and moves from gate to gate.
   Every step is a composition of DeviceFSM steps, with the label `last` saying
   what the driver does and what must be observed.                              *)
EXTENDS DeviceFSM, Json
CONSTANT Gates        \* subset of {"prep", "notify", "handle"}
CONSTANT Throws       \* BOOLEAN: user callbacks may throw
VARIABLE last

gvars == <<vars, last>>
GView == [cur |-> cur, pend |-> pend, w |-> w, ss |-> ss, ts |-> ts]
Hist == UNCHANGED <<log, due>>

\* where the worker comes to rest when it is about to enter phase p of a visit of state s
RECURSIVE Rest(_, _, _)
Rest(p, s, sub) ==
  CASE p = "prep"   -> IF "prep" \in Gates THEN "prep" ELSE Rest("notify", s, sub)
    [] p = "notify" -> IF "notify" \in Gates /\ sub # {} /\ s # "ERROR" THEN "notify" ELSE Rest("handle", s, sub)
    [] p = "handle" -> IF "handle" \in Gates THEN "handle" ELSE "wait"

GInit == Init /\ last = [op |-> "init"]

GBegin == /\ w = "start"
          /\ w' = "wait" /\ last' = [op |-> "begin", arg |-> "", at |-> "wait", told |-> ss, toldstate |-> "IDLE"]
          /\ UNCHANGED <<cur, pend, todo, ss, ts>> /\ Hist

GReq(t) ==
  /\ w # "start"
  /\ IF Acceptable(t) /\ w # "stopped"
     THEN IF w = "wait"
          THEN /\ cur' = Target(t) /\ w' = Rest("prep", cur', ss) /\ UNCHANGED <<pend, todo, ss, ts>> /\ Hist
               /\ last' = [op |-> "req", arg |-> t, res |-> "true", at |-> w', nt |-> ts,
                           told |-> IF w' = "handle" THEN ss ELSE {}, toldstate |-> cur']
          ELSE /\ Accept(t)
               /\ last' = [op |-> "req", arg |-> t, res |-> "true", at |-> "same", nt |-> ts, told |-> {}, toldstate |-> ""]
     ELSE /\ UNCHANGED vars
          /\ last' = [op |-> "req", arg |-> t, res |-> IF Unspecified(t) THEN "any" ELSE "false", at |-> "same", nt |-> {}, told |-> {}, toldstate |-> ""]

GAdv ==
  /\ w \in {"prep", "notify", "handle"}
  /\ LET nxt == CASE w = "prep" -> "notify" [] w = "notify" -> "handle" [] w = "handle" -> "wait"
     IN IF nxt # "wait"
        THEN /\ w' = Rest(nxt, cur, ss) /\ UNCHANGED <<cur, pend, todo, ss, ts>> /\ Hist
             /\ last' = [op |-> "adv", arg |-> "", at |-> w', told |-> IF w' = "handle" THEN ss ELSE {}, toldstate |-> cur]
        ELSE IF Terminal(cur)
        THEN /\ w' = "stopped" /\ UNCHANGED <<cur, pend, todo, ss, ts>> /\ Hist
             /\ last' = [op |-> "adv", arg |-> "", at |-> "stopped", told |-> {}, toldstate |-> "",
                         end |-> IF cur = "ERROR" THEN "exception" ELSE "normal"]
        ELSE IF pend = None
        THEN /\ w' = "wait" /\ UNCHANGED <<cur, pend, todo, ss, ts>> /\ Hist
             /\ last' = [op |-> "adv", arg |-> "", at |-> "wait", told |-> {}, toldstate |-> ""]
        ELSE /\ cur' = pend /\ pend' = None /\ w' = Rest("prep", pend, ss) /\ UNCHANGED <<todo, ss, ts>> /\ Hist
             /\ last' = [op |-> "adv", arg |-> "", at |-> w', told |-> IF w' = "handle" THEN ss ELSE {}, toldstate |-> cur']

GThrow ==
  /\ Throws /\ w \in {"prep", "notify", "handle"} /\ cur # "ERROR"
  /\ cur' = "ERROR" /\ pend' = None /\ w' = "stopped" /\ UNCHANGED <<todo, ss, ts>> /\ Hist
  /\ last' = [op |-> "throw", arg |-> "", at |-> "stopped", told |-> ss, toldstate |-> "ERROR", end |-> "exception"]

AtRest == w \in {"start", "wait", "prep", "handle"}
GSub == /\ AtRest /\ UNCHANGED <<cur, pend, w, todo>> /\ Hist
        /\ \/ \E k \in Subs :
                \/ ss' = ss \cup {k} /\ UNCHANGED ts /\ last' = [op |-> "sub", arg |-> k, at |-> "same", told |-> {}, toldstate |-> ""]
                \/ ss' = ss \ {k} /\ UNCHANGED ts /\ last' = [op |-> "unsub", arg |-> k, at |-> "same", told |-> {}, toldstate |-> ""]
           \/ \E k \in TSubs :
                \/ ts' = ts \cup {k} /\ UNCHANGED ss /\ last' = [op |-> "tsub", arg |-> k, at |-> "same", told |-> {}, toldstate |-> ""]
                \/ ts' = ts \ {k} /\ UNCHANGED ss /\ last' = [op |-> "tunsub", arg |-> k, at |-> "same", told |-> {}, toldstate |-> ""]

GNext == GBegin \/ (\E t \in Transitions : GReq(t)) \/ GAdv \/ GThrow \/ GSub
GSpec == GInit /\ [][GNext]_gvars

Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
