-------------------------- MODULE Transfers_Trace --------------------------
(* Free-running transfers: each takes effect, if it is successful, somewhere
   between call and return; the number of messages on the way decides what is
   possible. Content and order of arrival are compared by the driver, whose
   verdict is part of the result ("ok" means: exactly the oldest message).     *)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, intr, wasint, pc     \* n: messages on the way; pc: per end
tvars == <<l, n, intr, wasint, pc>>
Idle == [st |-> "idle", lim |-> "", done |-> FALSE]
TInit == l = 1 /\ n = 0 /\ intr = FALSE /\ wasint = [e \in {"s", "r"} |-> FALSE] /\ pc = [e \in {"s", "r"} |-> Idle]
E == Trace[l]
On(x) == l <= Len(Trace) /\ E.e = x /\ l' = l + 1
TCall == /\ On("call") /\ pc' = [pc EXCEPT ![E.w] = [st |-> "busy", lim |-> E.lim, done |-> FALSE]]
         /\ wasint' = [wasint EXCEPT ![E.w] = intr] /\ UNCHANGED <<n, intr>>
TDo(e) == /\ pc[e].st = "busy" /\ ~pc[e].done /\ (e = "r" => n > 0) /\ n' = IF e = "s" THEN n + 1 ELSE n - 1
          /\ pc' = [pc EXCEPT ![e].done = TRUE] /\ UNCHANGED <<l, intr, wasint>>
TRet == /\ On("ret") /\ UNCHANGED <<n, intr, wasint>>
        /\ CASE E.res = "ok" -> pc[E.w].done
             [] E.res = "timeout" -> ~pc[E.w].done /\ pc[E.w].lim # "inf"
             [] E.res = "interrupted" -> ~pc[E.w].done /\ wasint[E.w]
             [] OTHER -> FALSE
        /\ pc' = [pc EXCEPT ![E.w] = Idle]
TInt == On("int") /\ intr' = TRUE /\ wasint' = [e \in {"s", "r"} |-> TRUE] /\ UNCHANGED <<n, pc>>
TRes == On("res") /\ intr' = FALSE /\ UNCHANGED <<n, pc, wasint>>
TNext == TCall \/ TRet \/ TInt \/ TRes \/ TDo("s") \/ TDo("r")
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
