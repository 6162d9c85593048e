------------------------ MODULE DataCallbacks_Trace ------------------------
(* A recorded device with data callbacks: every message goes to the callback of
   its channel once, in order, one callback at a time; a callback that returns
   FALSE is the last of its run.                                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, chans, sent, given, st, in, over, stop, thrown
tvars == <<l, chans, sent, given, st, in, over, stop, thrown>>
\* over: a callback of this run returned FALSE; stop: a stop was requested; in: callback under way
E == Trace[l]
On(x) == l <= Len(Trace) /\ E.e = x /\ l' = l + 1
TInit == l = 1 /\ chans = <<>> /\ sent = <<>> /\ given = <<>> /\ st = "none" /\ in = <<>> /\ over = FALSE /\ stop = FALSE /\ thrown = FALSE
\* chans: channel name -> kind of callback ("msg" or "parts"); sent, given: per "channel#index", how many
TConf == /\ On("conf") /\ chans' = E.chans /\ sent' = [k \in {E.subs[i] : i \in DOMAIN E.subs} |-> 0] /\ given' = [k \in {E.subs[i] : i \in DOMAIN E.subs} |-> 0]
         /\ st' = "READY" /\ in' = <<>> /\ over' = FALSE /\ stop' = FALSE /\ thrown' = FALSE
TSend == On("send") /\ E.n = sent[E.k] /\ sent' = [sent EXCEPT ![E.k] = @ + 1] /\ UNCHANGED <<chans, given, st, in, over, stop, thrown>>
TState == /\ On("state") /\ in = <<>> /\ UNCHANGED <<chans, sent, given, in>>
          /\ st' = E.s
          /\ CASE E.s = "RUNNING" -> st = "READY" /\ over' = FALSE /\ UNCHANGED <<stop, thrown>>
               [] E.s = "READY" /\ st = "RUNNING" -> (over \/ stop) /\ ~thrown /\ stop' = FALSE /\ UNCHANGED <<over, thrown>>
               [] E.s = "ERROR" -> thrown /\ UNCHANGED <<over, stop, thrown>>
               [] OTHER -> st # "RUNNING" /\ UNCHANGED <<over, stop, thrown>>
TStop == On("stop") /\ stop' = TRUE /\ UNCHANGED <<chans, sent, given, st, in, over, thrown>>
TCb == /\ On("cb") /\ st = "RUNNING" /\ in = <<>> /\ ~over /\ ~thrown /\ E.kind = chans[E.c] /\ E.k \in DOMAIN sent
       /\ E.good /\ E.n = given[E.k] /\ E.n < sent[E.k] /\ given' = [given EXCEPT ![E.k] = @ + 1] /\ in' = <<E.k>>
       /\ UNCHANGED <<chans, sent, st, over, stop, thrown>>
TRet == On("ret") /\ in = <<E.k>> /\ in' = <<>> /\ over' = (E.r = "false") /\ thrown' = (E.r = "throw") /\ UNCHANGED <<chans, sent, given, st, stop>>
\* the device had time: everything sent has been handed out
TIdle == On("idle") /\ given = sent /\ UNCHANGED <<chans, sent, given, st, in, over, stop, thrown>>
TEnd == On("end") /\ (IF thrown THEN E.how = "exception" ELSE E.how = "return") /\ UNCHANGED <<chans, sent, given, st, in, over, stop, thrown>>
TNext == TConf \/ TSend \/ TState \/ TStop \/ TCb \/ TRet \/ TIdle \/ TEnd
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
