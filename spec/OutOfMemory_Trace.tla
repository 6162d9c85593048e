------------------------- MODULE OutOfMemory_Trace -------------------------
(* Threads allocating and freeing freely with unlimited attempts: what is surely
   held (allocated, not yet being freed) never exceeds the memory; an allocation
   given up was interrupted; everybody gets what it waits for in the end.       *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANT Total
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, held, wait, intr, was
tvars == <<l, held, wait, intr, was>>
Threads == 0..15
TInit == l = 1 /\ held = 0 /\ wait = [t \in Threads |-> FALSE] /\ intr = [u \in {"A", "B"} |-> FALSE] /\ was = [t \in Threads |-> FALSE]
E == Trace[l]
On(x) == l <= Len(Trace) /\ E.e = x /\ l' = l + 1
User(t) == IF t % 2 = 0 THEN "A" ELSE "B"
TCall == On("call") /\ ~wait[E.th] /\ wait' = [wait EXCEPT ![E.th] = TRUE] /\ was' = [was EXCEPT ![E.th] = intr[User(E.th)]] /\ UNCHANGED <<held, intr>>
TGot == On("got") /\ wait[E.th] /\ wait' = [wait EXCEPT ![E.th] = FALSE] /\ held' = held + E.n /\ held' <= Total /\ UNCHANGED <<intr, was>>
TRefused == On("refused") /\ wait[E.th] /\ was[E.th] /\ wait' = [wait EXCEPT ![E.th] = FALSE] /\ UNCHANGED <<held, intr, was>>
TFree == On("free") /\ held' = held - E.n /\ UNCHANGED <<wait, intr, was>>
TInt == On("int") /\ intr' = [intr EXCEPT ![E.u] = TRUE] /\ was' = [t \in Threads |-> was[t] \/ User(t) = E.u] /\ UNCHANGED <<held, wait>>
TRes == On("res") /\ intr' = [intr EXCEPT ![E.u] = FALSE] /\ UNCHANGED <<held, wait, was>>
TEnd == On("end") /\ held = 0 /\ E.lost = 0 /\ E.bad = "" /\ \A t \in Threads : ~wait[t] /\ UNCHANGED <<held, wait, intr, was>>
TNext == TCall \/ TGot \/ TRefused \/ TFree \/ TInt \/ TRes \/ TEnd
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
