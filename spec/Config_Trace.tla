---------------------------- MODULE Config_Trace ----------------------------
(* Threads reading and writing one store freely. Each operation takes effect at
   one point between its call and its return; the values returned by reads, the
   results of updates and the notifications made during a write must fit.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS WithStore, WithTold     \* BOOLEAN: what is compared
Trace == ndJsonDeserialize(IOEnv.TRACE)
Keys == {"k1", "k2", "k3"}
Threads == 0..5
Absent == [t |-> "none", v |-> 0]
VARIABLES l, store, pc
tvars == <<l, store, pc>>
Idle == [op |-> "idle"]
Empty == [k \in Keys |-> Absent]
TInit == l = 1 /\ store = Empty /\ pc = [t \in Threads |-> Idle]
E == Trace[l]
Ev(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
DomOf(m) == {k \in Keys : m[k] # Absent}
TReset == Ev("reset") /\ store' = Empty /\ pc' = [t \in Threads |-> Idle]
TCall == Ev("call") /\ pc[E.th] = Idle /\ UNCHANGED store
         /\ pc' = [pc EXCEPT ![E.th] = [op |-> E.op, key |-> E.key, m |-> E.m, done |-> FALSE, ok |-> FALSE, seen |-> Empty]]
TDo(t) ==
  /\ pc[t] # Idle /\ ~pc[t].done /\ UNCHANGED l
  /\ LET p == pc[t]
         upd == p.op \in {"update", "updatem"}
         able == ~upd \/ \A k \in DomOf(p.m) : store[k] # Absent
     IN CASE p.op \in {"set", "setm", "update", "updatem"} ->
               /\ store' = IF able THEN [k \in Keys |-> IF p.m[k] # Absent THEN p.m[k] ELSE store[k]] ELSE store
               /\ pc' = [pc EXCEPT ![t].done = TRUE, ![t].ok = able]
          [] p.op = "del" -> store' = [store EXCEPT ![p.key] = Absent] /\ pc' = [pc EXCEPT ![t].done = TRUE, ![t].ok = TRUE]
          [] p.op = "get" -> UNCHANGED store /\ pc' = [pc EXCEPT ![t].done = TRUE, ![t].ok = TRUE, ![t].seen = [k \in Keys |-> IF k = p.key THEN store[k] ELSE Absent]]
          [] p.op = "all" -> UNCHANGED store /\ pc' = [pc EXCEPT ![t].done = TRUE, ![t].ok = TRUE, ![t].seen = store]
Told(p) == IF E.ok /\ p.op \in {"set", "setm", "update", "updatem"} THEN {<<k, p.m[k].t, p.m[k].v>> : k \in DomOf(p.m)} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}
TRet == /\ Ev("ret") /\ pc[E.th] # Idle /\ pc[E.th].done /\ UNCHANGED store
        /\ LET p == pc[E.th] IN
           /\ WithStore => E.ok = p.ok /\ (p.op \in {"get", "all"} => E.seen = p.seen)
           \* the notifications of the write: every subscription for the type and for text, once each
           /\ WithTold => /\ SetOf(E.typed) = Told(p) /\ Len(E.typed) = Cardinality(Told(p))
                          /\ SetOf(E.text) = Told(p) /\ Len(E.text) = Cardinality(Told(p))
                          /\ E.exc = ""
        /\ pc' = [pc EXCEPT ![E.th] = Idle]
TNext == TReset \/ TCall \/ TRet \/ \E t \in Threads : TDo(t)
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
