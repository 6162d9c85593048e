---------------------------- MODULE DataCallbacks ----------------------------
(* Data callbacks of a device: one polling thread per transport, a mutex around
   the callbacks, and a flag that ends the run (Device.cxx: Handle...Input,
   PollForTransport).                                                            *)
EXTENDS Naturals, FiniteSets
CONSTANTS Chans,     \* (channel, sub-channel) pairs with a callback
          Of,        \* transport of each (function)
          Max        \* messages per channel
Transports == {Of[c] : c \in Chans}
VARIABLES sent, given,   \* per channel: messages sent / handed to the callback
          st,            \* "READY", "RUNNING" (threads work), "ENDING" (threads join), "ERROR"
          proceed, pend, \* run goes on? state change requested?
          th,            \* per transport: "poll", "lock", "cb", "out"
          at,            \* per transport: channel whose input it serves
          lock,          \* owner of the mutex, or "free"
          fresh          \* no callback of this run has returned FALSE (history)
vars == <<sent, given, st, proceed, pend, th, at, lock, fresh>>
Init == /\ sent = [c \in Chans |-> 0] /\ given = [c \in Chans |-> 0] /\ st = "READY" /\ proceed = FALSE /\ pend = FALSE
        /\ th = [t \in Transports |-> "out"] /\ at = [t \in Transports |-> CHOOSE c \in Chans : TRUE] /\ lock = "free" /\ fresh = TRUE
Feed(c) == sent[c] < Max /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ UNCHANGED <<given, st, proceed, pend, th, at, lock, fresh>>
Run == st = "READY" /\ st' = "RUNNING" /\ proceed' = TRUE /\ pend' = FALSE /\ th' = [t \in Transports |-> "poll"] /\ fresh' = TRUE /\ UNCHANGED <<sent, given, at, lock>>
Stop == st = "RUNNING" /\ ~pend /\ pend' = TRUE /\ UNCHANGED <<sent, given, st, proceed, th, at, lock, fresh>>
\* a thread sees input
See(t, c) == st = "RUNNING" /\ th[t] = "poll" /\ Of[c] = t /\ given[c] < sent[c] /\ th' = [th EXCEPT ![t] = "lock"] /\ at' = [at EXCEPT ![t] = c] /\ UNCHANGED <<sent, given, st, proceed, pend, lock, fresh>>
Leave(t) == th[t] = "poll" /\ (~proceed \/ pend) /\ th' = [th EXCEPT ![t] = "out"] /\ UNCHANGED <<sent, given, st, proceed, pend, at, lock, fresh>>
Enter(t) == /\ th[t] = "lock" /\ lock = "free"
            /\ IF proceed THEN lock' = t /\ th' = [th EXCEPT ![t] = "cb"] /\ given' = [given EXCEPT ![at[t]] = @ + 1]
               ELSE th' = [th EXCEPT ![t] = "out"] /\ UNCHANGED <<lock, given>>
            /\ UNCHANGED <<sent, st, proceed, pend, at, fresh>>
Ret(t, r) == /\ th[t] = "cb" /\ lock' = "free" /\ proceed' = r /\ fresh' = (fresh /\ r) /\ th' = [th EXCEPT ![t] = "poll"] /\ UNCHANGED <<sent, given, st, pend, at>>
Join == st = "RUNNING" /\ (\A t \in Transports : th[t] = "out") /\ st' = "READY" /\ UNCHANGED <<sent, given, proceed, pend, th, at, lock, fresh>>
Next == (\E c \in Chans : Feed(c)) \/ Run \/ Stop \/ Join \/ \E t \in Transports : Leave(t) \/ Enter(t) \/ (\E c \in Chans : See(t, c)) \/ \E r \in BOOLEAN : Ret(t, r)
Spec == Init /\ [][Next]_vars
\* a device that is left to run, with callbacks that all want more
Steady == Init /\ [][(\E c \in Chans : Feed(c)) \/ Run \/ \E t \in Transports : Enter(t) \/ (\E c \in Chans : See(t, c)) \/ Ret(t, TRUE)]_vars
          /\ WF_vars(Run) /\ \A t \in Transports : WF_vars(Ret(t, TRUE)) /\ SF_vars(Enter(t)) /\ \A c \in Chans : SF_vars(See(t, c))
InCb == {t \in Transports : th[t] = "cb"}
OneAtATime == Cardinality(InCb) <= 1
NothingMadeUp == \A c \in Chans : given[c] <= sent[c]
NothingAfterFalse == ~fresh => InCb = {}
EndsAfterFalse == (st = "RUNNING" /\ ~proceed) ~> (st = "READY")
AllGiven == \A c \in Chans : (sent[c] = Max) ~> (given[c] = Max)
FairSpec == Spec /\ WF_vars(Join) /\ \A t \in Transports : WF_vars(Leave(t)) /\ WF_vars(Enter(t))
=============================================================================
