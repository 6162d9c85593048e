------------------------ MODULE DeviceControl_Trace ------------------------
(* Clients taking, stealing, releasing and using control freely, others waiting for the release.
   Each operation takes effect at one point between its call and its return. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Threads == 0..7
None == "none"
VARIABLES l, ctrl, pc
tvars == <<l, ctrl, pc>>
Idle == [op |-> "idle"]
TInit == l = 1 /\ ctrl = None /\ pc = [t \in Threads |-> Idle]
E == Trace[l]
Ev(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TReset == Ev("reset") /\ ctrl' = None /\ pc' = [t \in Threads |-> Idle]
TCall == Ev("call") /\ pc[E.th] = Idle /\ UNCHANGED ctrl
         /\ pc' = [pc EXCEPT ![E.th] = [op |-> E.op, who |-> E.who, done |-> FALSE, denied |-> FALSE, v |-> ""]]
TDo(t) ==
  /\ pc[t] # Idle /\ ~pc[t].done /\ UNCHANGED l
  /\ LET p == pc[t]
         free == ctrl = None \/ ctrl = p.who
         Done(d, v) == pc' = [pc EXCEPT ![t].done = TRUE, ![t].denied = d, ![t].v = v]
     IN CASE p.op \in {"take", "change"} -> ctrl' = (IF free THEN p.who ELSE ctrl) /\ Done(~free, "")
          [] p.op = "steal" -> ctrl' = p.who /\ Done(FALSE, "")
          [] p.op = "release" -> ctrl' = (IF ctrl = p.who THEN None ELSE ctrl) /\ Done(FALSE, "")
          [] p.op = "get" -> UNCHANGED ctrl /\ Done(FALSE, ctrl)
          [] p.op = "wait" -> ctrl = None /\ UNCHANGED ctrl /\ Done(FALSE, "")
TRet == /\ Ev("ret") /\ pc[E.th] # Idle /\ pc[E.th].done /\ UNCHANGED ctrl
        /\ E.denied = pc[E.th].denied /\ E.v = pc[E.th].v
        /\ pc' = [pc EXCEPT ![E.th] = Idle]
\* the request of a client reaches the device (the device tells its observers): while that client is in control
TPassed == /\ Ev("passed") /\ UNCHANGED <<ctrl, pc>>
           /\ ctrl = pc[E.th].who /\ pc[E.th].op = "change" /\ pc[E.th].done /\ ~pc[E.th].denied
TNext == TReset \/ TCall \/ TRet \/ TPassed \/ \E t \in Threads : TDo(t)
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
