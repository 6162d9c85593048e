--------------------------- MODULE EventBus_Trace ---------------------------
(* Threads subscribing, unsubscribing and emitting freely. Subscriptions take
   effect (replace their predecessor) somewhere between their call and their
   return; a new callback may be heard of from the call on.                   *)
EXTENDS EventBus, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pc
Threads == Emitters
Idle == [op |-> "idle", s |-> 0, c |-> 0, t |-> 0, done |-> FALSE]
TInit == Init /\ l = 1 /\ pc = [t \in Threads |-> Idle]
E == Trace[l]
Ev(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TCall == /\ Ev("call") /\ E.op # "emit" /\ UNCHANGED <<cb, tag, nem>>
         /\ em' = [e \in Emitters |-> IF E.op = "sub" THEN Changed(e, E.c, None, E.t) ELSE em[e]]
         /\ pc' = [pc EXCEPT ![E.th] = [op |-> E.op, s |-> E.s, c |-> E.c, t |-> E.t, done |-> FALSE]]
TDo(t) == /\ pc[t].op # "idle" /\ ~pc[t].done /\ pc' = [pc EXCEPT ![t].done = TRUE] /\ UNCHANGED <<l, tag, nem>>
          /\ LET s == pc[t].s  c == pc[t].c  new == IF pc[t].op = "sub" THEN pc[t].t ELSE None
             IN /\ cb' = [cb EXCEPT ![s][c] = new]
                /\ em' = [e \in Emitters |-> Changed(e, c, cb[s][c], new)]
TRet == Ev("ret") /\ E.op # "emit" /\ pc[E.th].done /\ pc' = [pc EXCEPT ![E.th] = Idle] /\ UNCHANGED vars
Coming(c) == {pc[t].t : t \in {u \in Threads : pc[u].op = "sub" /\ pc[u].c = c}}
TBegin == /\ Ev("call") /\ E.op = "emit" /\ UNCHANGED <<cb, tag, nem, pc>>
          /\ em' = [em EXCEPT ![E.th] = [on |-> TRUE, c |-> E.c, must |-> Current(E.c), may |-> Current(E.c) \cup Coming(E.c), called |-> <<>>]]
TEnd == /\ Ev("ret") /\ E.op = "emit" /\ UNCHANGED <<cb, tag, nem, pc>>
        /\ LET called == {E.called[i] : i \in DOMAIN E.called} IN
           /\ Cardinality(called) = Len(E.called)
           /\ em[E.th].must \subseteq called /\ called \subseteq em[E.th].may
        /\ em' = [em EXCEPT ![E.th] = NoEm]
TNext == TCall \/ TRet \/ TBegin \/ TEnd \/ \E t \in Threads : TDo(t)
TraceSpec == TInit /\ [][TNext]_<<vars, l, pc>>
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
