---------------------------- MODULE MC_Messages ----------------------------
EXTENDS Messages, TLC
CONSTANTS Sizes, Used, Kinds, MaxBufs, MaxQ, MaxParts, Multi
Tagd == 1 + Len(bufs)
CanMake == Len(bufs) < MaxBufs
SeqsOf(n) == [1..n -> Slots]
Next ==
  \E p \in Procs, s \in Slots :
    \/ CanMake /\ \E t \in Transports, k \in Kinds, z \in Sizes : New(p, s, t, k, z, 0, Tagd, 0)
    \/ CanMake /\ \E k \in Kinds, z \in Sizes : Rebuild(p, s, k, z, 0, Tagd)
    \/ Destroy(p, s)
    \/ \E z \in Used : SetUsed(p, s, z, 0)
    \/ \E d \in Slots : Copy(p, d, s)
    \/ \E to \in Procs, t \in Transports : Len(chan[to][t]) < MaxQ /\ Len(bufs) < MaxBufs /\ Send(p, to, <<s>>, t, FALSE)
    \/ Multi /\ \E to \in Procs, t \in Transports, ss \in SeqsOf(2) : Len(chan[to][t]) < MaxQ /\ Len(bufs) < MaxBufs - 1 /\ Send(p, to, ss, t, TRUE)
    \/ \E t \in Transports, n \in 1..MaxParts : \E ss \in SeqsOf(n) : Receive(p, ss, t)
Sym == Permutations(Slots) \cup Permutations(Procs)
MSpec == Init /\ [][Next]_vars
\* histories of buffers and statistics do not matter for the future
MView == <<msgs, [b \in DOMAIN bufs |-> IF Owners(b) = 0 THEN <<bufs[b].freed, bufs[b].calls, bufs[b].kind>> ELSE bufs[b]], chan>>
=============================================================================
