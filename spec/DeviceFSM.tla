----------------------------- MODULE DeviceFSM -----------------------------
(* The device state machine: requests from any number of client threads, one
   worker that carries out accepted requests, subscribers to state changes and
   to new transitions, and failures (fairmq/StateMachine.cxx).

   One action per critical section of the code:
     Accept/Reject   ChangeState, under the state mutex
     Apply           the worker takes the pending state, under the state mutex
     Prep/Notify/Handle   the three phases of a visit, outside of the mutex
     Throw/Report    user code throws; the guard publishes ERROR                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Subs,      \* possible subscribers to state changes
          TSubs,     \* possible subscribers to new transitions
          MaxLog     \* bound on the history variables (model checking only)

States == {"IDLE", "INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY",
           "INITIALIZING TASK", "READY", "RUNNING", "RESETTING TASK", "RESETTING DEVICE", "EXITING", "ERROR"}
Transitions == {"AUTO", "INIT DEVICE", "COMPLETE INIT", "BIND", "CONNECT", "INIT TASK", "RUN", "STOP",
                "RESET TASK", "RESET DEVICE", "END", "ERROR FOUND"}
None == "NONE"

(* The documented state diagram (docs/images/device_states.svg). *)
Diagram(s, t) ==
  CASE s = "IDLE"                /\ t = "END"           -> "EXITING"
    [] s = "IDLE"                /\ t = "INIT DEVICE"   -> "INITIALIZING DEVICE"
    [] s = "INITIALIZING DEVICE" /\ t = "COMPLETE INIT" -> "INITIALIZED"
    [] s = "INITIALIZED"         /\ t = "BIND"          -> "BINDING"
    [] s = "INITIALIZED"         /\ t = "RESET DEVICE"  -> "RESETTING DEVICE"
    [] s = "BINDING"             /\ t = "AUTO"          -> "BOUND"
    [] s = "BOUND"               /\ t = "CONNECT"       -> "CONNECTING"
    [] s = "BOUND"               /\ t = "RESET DEVICE"  -> "RESETTING DEVICE"
    [] s = "CONNECTING"          /\ t = "AUTO"          -> "DEVICE READY"
    [] s = "DEVICE READY"        /\ t = "INIT TASK"     -> "INITIALIZING TASK"
    [] s = "DEVICE READY"        /\ t = "RESET DEVICE"  -> "RESETTING DEVICE"
    [] s = "INITIALIZING TASK"   /\ t = "AUTO"          -> "READY"
    [] s = "READY"               /\ t = "RUN"           -> "RUNNING"
    [] s = "READY"               /\ t = "RESET TASK"    -> "RESETTING TASK"
    [] s = "RUNNING"             /\ t = "STOP"          -> "READY"
    [] s = "RESETTING TASK"      /\ t = "AUTO"          -> "DEVICE READY"
    [] s = "RESETTING DEVICE"    /\ t = "AUTO"          -> "IDLE"
    [] s \notin {"ERROR", "EXITING"} /\ t = "ERROR FOUND" -> "ERROR"
    [] OTHER -> None

Terminal(s) == s \in {"ERROR", "EXITING"}

VARIABLES
  cur,    \* the state the device is in
  pend,   \* accepted request not yet carried out (target state), or None
  w,      \* the worker: "start", "notify0", "wait", "prep", "notify", "handle", "fail", "stopped"
  todo,   \* subscribers still to be called for this visit
  ss, ts, \* current subscribers to state changes / to new transitions
  log,    \* per state subscriber: what it was told since it subscribed (history)
  due     \* per state subscriber: visits it should have been told of since it subscribed (history)
vars == <<cur, pend, w, todo, ss, ts, log, due>>

TypeOK == /\ cur \in States /\ pend \in States \cup {None}
          /\ w \in {"start", "notify0", "wait", "prep", "notify", "handle", "fail", "stopped"}
          /\ todo \in SUBSET Subs /\ ss \in SUBSET Subs /\ ts \in SUBSET TSubs

Init == /\ cur = "IDLE" /\ pend = None /\ w = "start" /\ todo = {}
        /\ ss = {} /\ ts = {} /\ log = [k \in Subs |-> <<>>] /\ due = [k \in Subs |-> <<>>]

(* ---------------------------------------------------------------- requests *)
\* A request is possible exactly when nothing is pending and the diagram has it; an error request
\* also while something else is pending (it then supersedes what was pending).
Acceptable(t) ==
  \/ pend = None /\ Diagram(cur, t) # None
  \/ t = "ERROR FOUND" /\ pend # "ERROR" /\ ~Terminal(cur)

Target(t) == IF t = "ERROR FOUND" THEN "ERROR" ELSE Diagram(cur, t)

Accept(t) == /\ Acceptable(t)
             /\ pend' = Target(t)
             /\ UNCHANGED <<cur, w, todo, ss, ts, log, due>>

\* left open: a second error request while an error is already pending, or when the device has
\* ended, may be answered either way; it has no effect
Unspecified(t) == t = "ERROR FOUND" /\ (pend = "ERROR" \/ cur = "EXITING")
Reject(t) == ~Acceptable(t) /\ UNCHANGED vars

(* ------------------------------------------------------------ subscriptions *)
SubState(k)   == /\ ss' = ss \cup {k}
                 /\ log' = [log EXCEPT ![k] = <<>>] /\ due' = [due EXCEPT ![k] = <<>>]
                 /\ todo' = todo \ {k}            \* not called for the visit under way
                 /\ UNCHANGED <<cur, pend, w, ts>>
UnsubState(k) == /\ ss' = ss \ {k} /\ todo' = todo \ {k}
                 /\ UNCHANGED <<cur, pend, w, ts, log, due>>
SubTrans(k)   == ts' = ts \cup {k} /\ UNCHANGED <<cur, pend, w, todo, ss, log, due>>
UnsubTrans(k) == ts' = ts \ {k} /\ UNCHANGED <<cur, pend, w, todo, ss, log, due>>

(* ------------------------------------------------------------------- worker *)
EnterNotify == /\ todo' = ss
               /\ due' = [k \in Subs |-> IF k \in ss THEN Append(due[k], cur) ELSE due[k]]

Begin == /\ w = "start" /\ w' = "notify0" /\ EnterNotify     \* the initial state is announced without a visit
         /\ UNCHANGED <<cur, pend, ss, ts, log>>

Apply == /\ w = "wait" /\ pend # None
         /\ cur' = pend /\ pend' = None /\ w' = "prep"
         /\ UNCHANGED <<todo, ss, ts, log, due>>

Prep == /\ w = "prep" /\ w' = "notify" /\ EnterNotify
        /\ UNCHANGED <<cur, pend, ss, ts, log>>

Notify(k) == /\ w \in {"notify0", "notify", "fail"} /\ k \in todo
             /\ todo' = todo \ {k} /\ log' = [log EXCEPT ![k] = Append(@, cur)]
             /\ UNCHANGED <<cur, pend, w, ss, ts, due>>

EndNotify == /\ w \in {"notify0", "notify", "fail"} /\ todo = {}
             /\ w' = CASE w = "notify0" -> "wait" [] w = "notify" -> "handle" [] w = "fail" -> "stopped"
             /\ UNCHANGED <<cur, pend, todo, ss, ts, log, due>>

Handle == /\ w = "handle"
          /\ w' = IF Terminal(cur) THEN "stopped" ELSE "wait"
          /\ UNCHANGED <<cur, pend, todo, ss, ts, log, due>>

\* user code of the visit (preparation, subscriber or state handler) throws: ERROR is published at once
Throw == /\ w \in {"prep", "notify0", "notify", "handle"} /\ cur # "ERROR"
         /\ cur' = "ERROR" /\ pend' = None /\ w' = "fail" /\ todo' = ss
         \* subscribers not reached yet miss the visit that failed
         /\ due' = [k \in Subs |-> IF k \in ss
                      THEN (IF w \in {"notify0", "notify"} /\ k \in todo THEN SubSeq(due[k], 1, Len(due[k]) - 1) ELSE due[k]) \o <<"ERROR">>
                      ELSE due[k]]
         /\ UNCHANGED <<ss, ts, log>>

Work == Begin \/ Apply \/ Prep \/ Handle \/ EndNotify \/ \E k \in Subs : Notify(k)

Requests == \E t \in Transitions : Accept(t)
Subscriptions == \/ \E k \in Subs : SubState(k) \/ UnsubState(k)
                 \/ \E k \in TSubs : SubTrans(k) \/ UnsubTrans(k)

Next == Work \/ Requests \/ Subscriptions \/ Throw
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* --------------------------------------------------------------- properties *)
\* C01: the state moves along the diagram only (an error may come from everywhere but a terminal state)
OnlyDocumented == [][cur' # cur => \/ cur' = "ERROR"
                                  \/ \E t \in Transitions : Diagram(cur, t) = cur']_cur
PendingIsLegal == pend # None => pend = "ERROR" \/ \E t \in Transitions : Diagram(cur, t) = pend
\* C01: an accepted request is carried out, or superseded by an error
CarriedOut == \A s \in States : pend = s ~> cur \in {s, "ERROR"}
\* C02: exactly once, in order, nothing missed
Told == \A k \in Subs : k \in ss =>
          IF w \in {"notify0", "notify", "fail"} /\ k \in todo
          THEN due[k] = Append(log[k], cur) ELSE log[k] = due[k]
NothingAfterUnsub == [][\A k \in Subs : k \notin ss /\ k \notin ss' => log'[k] = log[k]]_vars
\* C02: the work of a state starts only when everybody was told
TellBeforeWork == w = "handle" => todo = {}
\* C03: no way out of ERROR, and the worker ends
ErrorIsFinal == [][cur = "ERROR" => cur' = "ERROR"]_cur
ErrorStops == cur = "ERROR" ~> w = "stopped"

Bounded == \A k \in Subs : Len(due[k]) <= MaxLog
=============================================================================
