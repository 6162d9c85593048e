-------------------------- MODULE Semaphore_Trace --------------------------
(* Executions of threads using one semaphore freely: wait/signal/count calls
   and returns; each takes effect somewhere between its call and its return.  *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS InitCount
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, count, pc      \* pc: per thread "idle" or <<operation, done?, value>>
tvars == <<l, count, pc>>
Threads == 0..8
TInit == l = 1 /\ count = InitCount /\ pc = [t \in Threads |-> [op |-> "idle", done |-> FALSE, v |-> 0]]
E == Trace[l]
TCall == /\ l <= Len(Trace) /\ E.e = "call" /\ l' = l + 1 /\ UNCHANGED count
         /\ pc' = [pc EXCEPT ![E.th] = [op |-> E.op, done |-> FALSE, v |-> 0]]
\* silent: an operation under way takes effect
TDo(t) == /\ pc[t].op # "idle" /\ ~pc[t].done /\ UNCHANGED l
          /\ CASE pc[t].op = "wait"   -> count > 0 /\ count' = count - 1 /\ pc' = [pc EXCEPT ![t].done = TRUE]
               [] pc[t].op = "signal" -> count' = count + 1 /\ pc' = [pc EXCEPT ![t].done = TRUE]
               [] pc[t].op = "count"  -> UNCHANGED count /\ pc' = [pc EXCEPT ![t].done = TRUE, ![t].v = count]
TRet == /\ l <= Len(Trace) /\ E.e = "ret" /\ l' = l + 1 /\ UNCHANGED count
        /\ pc[E.th].op = E.op /\ pc[E.th].done /\ (E.op = "count" => E.v = pc[E.th].v)
        /\ pc' = [pc EXCEPT ![E.th] = [op |-> "idle", done |-> FALSE, v |-> 0]]
TNext == TCall \/ TRet \/ \E t \in Threads : TDo(t)
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
