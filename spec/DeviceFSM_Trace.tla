-------------------------- MODULE DeviceFSM_Trace --------------------------
(* Is a recorded execution of the state machine (requesting threads, worker,
   subscribers, all running freely) a behaviour of DeviceFSM?
   Events: call/ret of a request, nt (the new-transition subscriber, called
   while the request is being accepted), prep/told/handle/handled/end of the
   worker, subcall/sub/unsubcall/unsub. Rejections have no event of their own:
   a request may be answered "false" if at some moment between its call and its
   return it was not acceptable.                                               *)
EXTENDS DeviceFSM, Json, IOUtils
CONSTANTS CheckSubs, CheckReq
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,         \* next record
          calls,     \* per requesting thread: the request under way, <<t, mayReject, accepted>>
          grey       \* subscribers whose (un)subscription is under way
tvars == <<vars, l, calls, grey>>

Threads == 0..9
NoCall == [t |-> None, rej |-> FALSE, acc |-> FALSE]
TraceInit == /\ Init /\ l = 1 /\ calls = [i \in Threads |-> NoCall] /\ grey = {}

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
\* after every step: requests under way that could be turned down now
Refresh(c) == [i \in Threads |->
   IF c[i].t = None THEN c[i]
   ELSE [c[i] EXCEPT !.rej = @ \/ ~((pend' = None /\ Diagram(cur', c[i].t) # None) \/ (c[i].t = "ERROR FOUND" /\ pend' # "ERROR" /\ ~Terminal(cur')))]]
Same == UNCHANGED <<cur, pend, w, todo, ss, ts, log, due>>
NoHist == UNCHANGED <<log, due, ts>>

TCall == /\ Is("call") /\ Same /\ UNCHANGED grey
         /\ calls' = Refresh([calls EXCEPT ![E.th] = [t |-> E.t, rej |-> FALSE, acc |-> FALSE]])
TNt == /\ Is("nt") /\ UNCHANGED grey
       /\ IF E.th \in Threads /\ calls[E.th].t = E.t
          THEN /\ Accept(E.t)
               /\ calls' = Refresh([calls EXCEPT ![E.th].acc = TRUE])
          ELSE FALSE
TRet == /\ Is("ret") /\ Same /\ UNCHANGED grey
        /\ calls[E.th].t = E.t
        /\ IF E.res THEN calls[E.th].acc ELSE ~calls[E.th].acc /\ calls[E.th].rej
        /\ calls' = Refresh([calls EXCEPT ![E.th] = NoCall])

\* the worker
WBegin == /\ w = "start" /\ w' = "notify0" /\ todo' = ss /\ UNCHANGED <<cur, pend, ss>> /\ NoHist
TApply == /\ Apply /\ UNCHANGED <<l, grey>> /\ calls' = Refresh(calls)           \* silent
TPrep == /\ Is("prep") /\ UNCHANGED grey /\ E.s = cur
         /\ w = "prep" /\ w' = "prepping" /\ UNCHANGED <<cur, pend, todo, ss>> /\ NoHist /\ calls' = Refresh(calls)
\* the subscribers of the visit are those subscribed when the worker turns to them (silent)
TEnter == /\ (w = "prepping" \/ w = "start") /\ w' = IF w = "start" THEN "notify0" ELSE "notify"
          /\ todo' = ss /\ UNCHANGED <<cur, pend, ss, l, grey>> /\ NoHist /\ calls' = Refresh(calls)
\* a subscriber that is just being added or removed may be told or not
TTold == /\ Is("told") /\ E.s = cur /\ UNCHANGED grey
         /\ w \in {"notify0", "notify"} /\ (E.k \in todo \/ ~CheckSubs)
         /\ todo' = todo \ {E.k} /\ UNCHANGED <<cur, pend, w, ss>> /\ NoHist /\ calls' = Refresh(calls)
TEnd0 == /\ w = "notify0" /\ (todo = {} \/ ~CheckSubs \/ todo \subseteq grey) /\ w' = "wait" /\ todo' = {}
         /\ UNCHANGED <<cur, pend, ss, l, grey>> /\ NoHist /\ calls' = Refresh(calls)                   \* silent
THandle == /\ Is("handle") /\ E.s = cur /\ UNCHANGED grey
           /\ w = "notify" /\ (todo = {} \/ ~CheckSubs \/ todo \subseteq grey) /\ w' = "handle" /\ todo' = {}
           /\ UNCHANGED <<cur, pend, ss>> /\ NoHist /\ calls' = Refresh(calls)
THandled == /\ Is("handled") /\ E.s = cur /\ UNCHANGED grey
            /\ w = "handle" /\ w' = IF Terminal(cur) THEN "stopped" ELSE "wait"
            /\ UNCHANGED <<cur, pend, todo, ss>> /\ NoHist /\ calls' = Refresh(calls)
TEnd == /\ Is("end") /\ w = "stopped" /\ E.how = (IF cur = "ERROR" THEN "exception" ELSE "normal")
        /\ Same /\ UNCHANGED <<calls, grey>>

\* (un)subscription: effective at some moment between its call and its return
TSubCall == /\ Is("subcall") /\ ss' = ss \cup {E.k} /\ grey' = grey \cup {E.k}
            /\ todo' \in {todo, IF w \in {"notify0", "notify"} THEN todo \cup {E.k} ELSE todo}
            /\ UNCHANGED <<cur, pend, w, calls>> /\ NoHist
TSub == /\ Is("sub") /\ ss' = ss \cup {E.k} /\ grey' = grey \ {E.k}
        /\ todo' = IF E.k \in grey THEN todo \ {E.k} ELSE todo
        /\ UNCHANGED <<cur, pend, w, calls>> /\ NoHist
TSubLate == /\ Is("sub") /\ E.k \in grey /\ E.k \in todo /\ ss' = ss \cup {E.k} /\ grey' = grey \ {E.k}
            /\ UNCHANGED <<cur, pend, w, calls, todo>> /\ NoHist
TUnsubCall == /\ Is("unsubcall") /\ grey' = grey \cup {E.k}
              /\ UNCHANGED <<cur, pend, w, calls, ss, todo>> /\ NoHist
\* a call that was already on its way when the unsubscription returned may still arrive
TUnsub == /\ Is("unsub") /\ grey' = grey \ {E.k} /\ ss' = ss \ {E.k}
          /\ todo' = todo \ {E.k}
          /\ UNCHANGED <<cur, pend, w, calls>> /\ NoHist
TStray == /\ Is("told") /\ E.s = cur /\ E.k \in grey /\ E.k \notin todo /\ UNCHANGED <<vars, calls, grey>>

TraceNext == \/ TCall \/ TNt \/ TRet \/ TApply \/ TPrep \/ TEnter \/ TTold \/ TEnd0 \/ THandle \/ THandled \/ TEnd
             \/ TSubCall \/ TSub \/ TSubLate \/ TUnsubCall \/ TUnsub \/ TStray
TraceSpec == TraceInit /\ [][TraceNext]_tvars

ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
