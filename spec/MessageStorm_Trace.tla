------------------------- MODULE MessageStorm_Trace -------------------------
(* Executions of threads of two processes that create, copy, forward and drop
   messages at the same time. An owner more is recorded before it comes into
   being (by somebody who is an owner), an owner less before it goes; a release
   is recorded when it has happened. So a release is early if it is recorded
   while owners are left.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT Moves   \* a transfer hands the buffer over instead of its bytes
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, own, kind, blk, q
tvars == <<l, own, kind, blk, q>>
Empty == [x \in {} |-> 0]
TInit == l = 1 /\ own = Empty /\ kind = Empty /\ blk = Empty /\ q = Empty
E == Trace[l]
Ev(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Add(f, k, v) == (k :> v) @@ f
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* kinds: 0 allocated, 1 block of a region, 2 buffer of the user; what nobody owns stays known until its release is recorded
Forget(b) == own' = Less(own, b) /\ kind' = Less(kind, b) /\ blk' = Less(blk, b)
Gone(b, o) == IF o = 0 /\ (kind[b] = 0 \/ (kind[b] = 3)) THEN Forget(b) ELSE own' = [own EXCEPT ![b] = o] /\ UNCHANGED <<kind, blk>>
Val(f) == IF E.b \in DOMAIN f THEN f[E.b] ELSE 0
Q(s, t) == IF <<s, t>> \in DOMAIN q THEN q[<<s, t>>] ELSE <<>>
New == Ev("n") /\ E.b \notin DOMAIN own /\ own' = Add(own, E.b, 1) /\ kind' = Add(kind, E.b, E.s) /\ blk' = Add(blk, E.b, E.g) /\ UNCHANGED q
Inc == Ev("i") /\ E.b \in DOMAIN own /\ own[E.b] > 0 /\ own' = [own EXCEPT ![E.b] = @ + 1] /\ UNCHANGED <<kind, blk, q>>
Dec == Ev("d") /\ E.b \in DOMAIN own /\ own[E.b] > 0 /\ Gone(E.b, own[E.b] - 1) /\ UNCHANGED q
\* the bytes are handed over: the transport may be finished with the buffer at any time
Send == Ev("s") /\ q' = Add(q, <<E.s, E.t>>, Append(Q(E.s, E.t), E.g))
        /\ IF Moves THEN UNCHANGED <<own, kind, blk>> ELSE own[E.b] > 0 /\ Gone(E.b, own[E.b] - 1)
Fail == Ev("f") /\ Q(E.s, E.t) # <<>> /\ LET x == Q(E.s, E.t) IN
        /\ x[Len(x)] = E.g /\ q' = Add(q, <<E.s, E.t>>, SubSeq(x, 1, Len(x) - 1))
        /\ IF Moves THEN UNCHANGED <<own, kind, blk>> ELSE own' = Add(own, E.b, Val(own) + 1) /\ kind' = Add(kind, E.b, Val(kind)) /\ blk' = Add(blk, E.b, Val(blk))
Recv == Ev("r") /\ Q(E.s, E.t) # <<>> /\ Head(Q(E.s, E.t)) = E.b /\ q' = Add(q, <<E.s, E.t>>, Tail(Q(E.s, E.t))) /\ UNCHANGED <<own, kind, blk>>
\* the acknowledgement: after the last owner, for the right block, once
Ack == Ev("A") /\ E.b \in DOMAIN own /\ kind[E.b] = 1 /\ blk[E.b] = E.g /\ (Moves => own[E.b] = 0) /\ UNCHANGED q
       /\ IF Moves THEN Forget(E.b) ELSE kind' = [kind EXCEPT ![E.b] = 3] /\ UNCHANGED <<own, blk>>
\* the free function of the user: at once if the content was copied
Call == Ev("C") /\ E.b \in DOMAIN own /\ kind[E.b] = 2 /\ (~Moves => own[E.b] = 0) /\ UNCHANGED q
        /\ IF Moves THEN kind' = [kind EXCEPT ![E.b] = 3] /\ UNCHANGED <<own, blk>> ELSE Forget(E.b)
\* all messages are gone: so is the memory they used
Mem == Ev("m") /\ E.b = 0 /\ (\A b \in DOMAIN own : own[b] = 0) /\ UNCHANGED <<own, kind, blk, q>>
End == Ev("end") /\ E.left = <<>> /\ (\A x \in DOMAIN q : q[x] = <<>>)
       /\ (\A b \in DOMAIN own : own[b] = 0 /\ (kind[b] \in {0, 3})) /\ own' = Empty /\ kind' = Empty /\ blk' = Empty /\ q' = Empty
TNext == New \/ Inc \/ Dec \/ Send \/ Fail \/ Recv \/ Ack \/ Call \/ Mem \/ End
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
