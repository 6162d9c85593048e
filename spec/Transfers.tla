----------------------------- MODULE Transfers -----------------------------
(* Transfers over one connection with limited room, with time, interruption and
   signals. One thread sends, one receives. A transfer has a time limit (0, some
   ticks, or Inf); it is completed, runs out of time or is interrupted.
   q: messages on the way; room: how many fit (Cap0 until the receiver attached).
   Mech: the way FairMQ does it - the transfer is tried in slices of one poll
   period (Slice ticks), after each of which interruption and time are checked;
   a signal ends a slice early.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap0, Cap, Slice, Limits, MaxMsgs, MaxOps
Inf == 99
VARIABLES q, att, intr, tr, sent, got, nxt, ops, age
vars == <<q, att, intr, tr, sent, got, nxt, ops, age>>
(* tr["s"], tr["r"]: the transfer under way: [st, lim, el, sl] - limit, elapsed time, elapsed in this slice.
   nxt: the message the sender holds; sent: those it was told were sent; got: those received;
   age: for each end the result of the last transfer and the time it took                    *)
Ends == {"s", "r"}
None == [st |-> "idle", lim |-> 0, el |-> 0, sl |-> 0]
Init == /\ q = <<>> /\ att = FALSE /\ intr = FALSE /\ tr = [e \in Ends |-> None] /\ sent = <<>> /\ got = <<>> /\ nxt = 1 /\ ops = 0
        /\ age = [e \in Ends |-> [res |-> "none", el |-> 0, lim |-> 0]]
Room == IF att THEN Cap ELSE Cap0
Possible(e) == IF e = "s" THEN Len(q) < Room ELSE att /\ q # <<>>
Op == ops < MaxOps /\ ops' = ops + 1
Call(e, lim) == /\ Op /\ tr[e].st = "idle" /\ (e = "s" => nxt <= MaxMsgs)
                /\ tr' = [tr EXCEPT ![e] = [st |-> "try", lim |-> lim, el |-> 0, sl |-> 0]]
                /\ UNCHANGED <<q, att, intr, sent, got, nxt, age>>
End(e, r) == /\ tr' = [tr EXCEPT ![e] = None] /\ age' = [age EXCEPT ![e] = [res |-> r, el |-> tr[e].el, lim |-> tr[e].lim]]
\* the transfer takes place
Do(e) == /\ tr[e].st # "idle" /\ Possible(e) /\ End(e, "ok")
         /\ IF e = "s" THEN q' = Append(q, nxt) /\ sent' = Append(sent, nxt) /\ nxt' = nxt + 1 /\ UNCHANGED got
                       ELSE q' = Tail(q) /\ got' = Append(got, Head(q)) /\ UNCHANGED <<sent, nxt>>
         /\ UNCHANGED <<att, intr, ops>>
\* it cannot: a transfer that must not wait is over at once, others wait
Wait(e) == /\ tr[e].st = "try" /\ ~Possible(e)
           /\ IF tr[e].lim = 0 THEN End(e, IF intr THEN "interrupted" ELSE "timeout") ELSE tr' = [tr EXCEPT ![e].st = "wait"] /\ UNCHANGED age
           /\ UNCHANGED <<q, att, intr, sent, got, nxt, ops>>
\* a slice ends, by itself or because of a signal
EndSlice(e, sig) ==
           /\ tr[e].st = "wait" /\ ~Possible(e) /\ (sig \/ tr[e].sl >= Slice)
           /\ IF intr THEN End(e, "interrupted")
              ELSE IF tr[e].lim # Inf /\ tr[e].el >= tr[e].lim THEN End(e, "timeout")
              ELSE tr' = [tr EXCEPT ![e].sl = 0] /\ UNCHANGED age
           /\ UNCHANGED <<q, att, intr, sent, got, nxt>>
Signal(e) == Op /\ EndSlice(e, TRUE)
Slot(e) == UNCHANGED ops /\ EndSlice(e, FALSE)
\* time passes only when everybody had the chance to do what is due
Tick == /\ \E e \in Ends : tr[e].st = "wait"
        /\ \A e \in Ends : tr[e].st # "try" /\ (tr[e].st = "wait" => ~Possible(e) /\ tr[e].sl < Slice)
        /\ tr' = [e \in Ends |-> IF tr[e].st = "wait" THEN [tr[e] EXCEPT !.el = IF tr[e].lim = Inf THEN 0 ELSE @ + 1, !.sl = @ + 1] ELSE tr[e]]
        /\ UNCHANGED <<q, att, intr, sent, got, nxt, ops, age>>
Attach == Op /\ ~att /\ att' = TRUE /\ UNCHANGED <<q, intr, tr, sent, got, nxt, age>>
Interrupt == Op /\ ~intr /\ intr' = TRUE /\ UNCHANGED <<q, att, tr, sent, got, nxt, age>>
Resume == Op /\ intr /\ intr' = FALSE /\ UNCHANGED <<q, att, tr, sent, got, nxt, age>>
Next == Attach \/ Interrupt \/ Resume \/ Tick \/ \E e \in Ends : Do(e) \/ Wait(e) \/ Signal(e) \/ Slot(e) \/ \E lim \in Limits : Call(e, lim)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A e \in Ends : WF_vars(Do(e)) /\ WF_vars(Wait(e)) /\ WF_vars(Slot(e))

NothingLostOrInvented == got \o q = sent /\ sent = [i \in 1..(nxt - 1) |-> i]
NeverEarly == \A e \in Ends : age[e].res = "timeout" => age[e].lim # Inf /\ age[e].el >= age[e].lim
\* an unlimited wait ends when it becomes possible for good or the interruption stays
EndsWhenItCan == \A e \in Ends : []((tr[e].st # "idle") => <>(tr[e].st = "idle" \/ (tr[e].lim = Inf /\ ~Possible(e) /\ ~intr)))
NonBlocking == \A e \in Ends : tr[e].lim = 0 => tr[e].st # "wait"
FailureHasNoEffect == [][\A e \in Ends : (age'[e] # age[e] /\ age'[e].res # "ok") => UNCHANGED <<q, sent, got, nxt>>]_vars
=============================================================================
