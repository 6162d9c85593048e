-------------------------- MODULE DeviceLife_Trace --------------------------
(* A device whose requests come from several threads at any time, recorded:
   states, hooks (begin and end) and messages sent and received.               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, due, in, tx, rx, failed
tvars == <<l, s, due, in, tx, rx, failed>>
E == Trace[l]
On(x) == l <= Len(Trace) /\ E.e = x /\ l' = l + 1
TInit == l = 1 /\ s = "start" /\ due = <<>> /\ in = "" /\ tx = <<>> /\ rx = <<>> /\ failed = FALSE
Succ(x) == CASE x = "start" -> {"IDLE"} [] x = "IDLE" -> {"INITIALIZING DEVICE", "EXITING"} [] x = "INITIALIZING DEVICE" -> {"INITIALIZED"}
             [] x = "INITIALIZED" -> {"BINDING", "RESETTING DEVICE"} [] x = "BINDING" -> {"BOUND"} [] x = "BOUND" -> {"CONNECTING", "RESETTING DEVICE"}
             [] x = "CONNECTING" -> {"DEVICE READY"} [] x = "DEVICE READY" -> {"INITIALIZING TASK", "RESETTING DEVICE"} [] x = "INITIALIZING TASK" -> {"READY"}
             [] x = "READY" -> {"RUNNING", "RESETTING TASK"} [] x = "RUNNING" -> {"READY"} [] x = "RESETTING TASK" -> {"DEVICE READY"}
             [] x = "RESETTING DEVICE" -> {"IDLE"} [] OTHER -> {}
Hooks(x) == CASE x = "INITIALIZING DEVICE" -> <<"Init">> [] x = "BINDING" -> <<"Bind">> [] x = "CONNECTING" -> <<"Connect">> [] x = "INITIALIZING TASK" -> <<"InitTask">>
              [] x = "RUNNING" -> <<"PreRun", "ConditionalRun", "Run", "PostRun">> [] x = "RESETTING TASK" -> <<"ResetTask">> [] x = "RESETTING DEVICE" -> <<"Reset">> [] OTHER -> <<>>
\* a hook may be left out only on the way to ERROR
TState == /\ On("state") /\ in = "" /\ s' = E.s /\ due' = Hooks(E.s) /\ UNCHANGED <<in, failed>>
          /\ IF E.s = "ERROR" THEN failed ELSE (due = <<>> /\ E.s \in Succ(s))
          /\ IF E.s = "CONNECTING" THEN tx' = <<>> /\ rx' = <<>> ELSE UNCHANGED <<tx, rx>>
TReport == On("report") /\ failed' = TRUE /\ UNCHANGED <<s, due, in, tx, rx>>
THook == /\ On("hook") /\ in = "" /\ in' = E.h /\ due # <<>>
         /\ IF E.h = Head(due) THEN due' = IF E.h = "ConditionalRun" THEN due ELSE Tail(due) ELSE (Len(due) > 1 /\ Head(due) = "ConditionalRun" /\ E.h = due[2] /\ due' = SubSeq(due, 3, Len(due)))
         /\ UNCHANGED <<s, tx, rx, failed>>
TDone == On("done") /\ in = E.h /\ in' = "" /\ UNCHANGED <<s, due, tx, rx, failed>>
N(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
TSent == On("sent") /\ in # "" /\ E.n = N(tx, E.i) /\ tx' = (E.i :> (E.n + 1)) @@ tx /\ UNCHANGED <<s, due, in, rx, failed>>
TGot == On("got") /\ in # "" /\ E.n = N(rx, E.i) /\ E.n < N(tx, E.i) /\ rx' = (E.i :> (E.n + 1)) @@ rx /\ UNCHANGED <<s, due, in, tx, failed>>
TEnd == On("end") /\ in = "" /\ E.bad = "" /\ (IF s = "ERROR" THEN E.how = "exception" ELSE s = "EXITING" /\ E.how = "return") /\ UNCHANGED <<s, due, in, tx, rx, failed>>
TNext == TState \/ TReport \/ THook \/ TDone \/ TSent \/ TGot \/ TEnd
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
