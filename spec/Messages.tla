------------------------------ MODULE Messages ------------------------------
(* Messages, their buffers, and the transfer of buffers between processes.

   A process holds message objects in slots. A message refers to a buffer (or to
   none: empty message) and shows the first len bytes of it. For zeromq
   messages al is the alignment asked for, pr the one promised for what is shown. Buffers are
   allocated by the transport ("alloc"), handed over by the user together with a
   free function ("user"), or blocks of an unmanaged region ("region").
   Transport "shmem" hands a buffer over to the receiver, whatever the process;
   transport "zeromq" delivers the bytes in a buffer of the receiver's own.

   The mechanism of shared memory is part of the specification: a count in the
   buffer's header, no count for a region block before its first copy (sh), and
   a sender that no longer owns what it has queued ("sent").  The invariants say
   that this mechanism releases exactly when the last owner goes, once.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Slots, Transports
VARIABLES msgs,   \* [Procs -> [Slots -> message]]
          bufs,   \* sequence of buffers ever used
          chan,   \* [Procs -> [Transports -> sequence of transfers to that process]]
          stats,  \* [Procs -> [Transports -> messages and bytes, sent and received]]
          touched \* slots the last step was about
vars == <<msgs, bufs, chan, stats, touched>>

NoMsg == [st |-> "none", t |-> "none", b |-> 0, len |-> 0, sh |-> FALSE, al |-> 0, pr |-> 0]
Live(t, b, len, sh) == [st |-> "live", t |-> t, b |-> b, len |-> len, sh |-> sh, al |-> 0, pr |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Realloc == 1000000   \* so many bytes given back may move the rest
\* its former content is nobody's business any more
Sent(m, t) == [NoMsg EXCEPT !.st = "sent", !.t = t, !.al = IF m.t = t THEN m.al ELSE 0]
\* early: the function of the user runs as soon as the content is copied
Early(t, kind) == (kind = "user" /\ t = "shmem") \/ (kind = "region" /\ t = "zeromq")
Buf(t, kind, home, size, al, tag, blk) ==
  [t |-> t, kind |-> kind, home |-> home, size |-> size, al |-> al, tag |-> tag, blk |-> blk,
   rc |-> IF kind = "region" /\ t = "shmem" THEN 0 ELSE 1, freed |-> 0, calls |-> IF Early(t, kind) THEN 1 ELSE 0]
Counted(m) == ~(bufs[m.b].kind = "region" /\ bufs[m.b].t = "shmem" /\ ~m.sh)

Init ==
  /\ msgs = [p \in Procs |-> [s \in Slots |-> NoMsg]] /\ bufs = <<>>
  /\ chan = [p \in Procs |-> [t \in Transports |-> <<>>]]
  /\ stats = [p \in Procs |-> [t \in Transports |-> [mtx |-> 0, btx |-> 0, mrx |-> 0, brx |-> 0]]]
  /\ touched = {}

Range(q) == {q[i] : i \in 1..Len(q)}
InFlight == UNION {{<<p, t, i, j>> : j \in 1..Len(chan[p][t][i].parts)} : <<p, t, i>> \in
              UNION {{<<pt[1], pt[2], i>> : i \in 1..Len(chan[pt[1]][pt[2]])} : pt \in Procs \X Transports}}
Part(f) == chan[f[1]][f[2]][f[3]].parts[f[4]]
SlotOwners(b) == {<<p, s>> \in Procs \X Slots : msgs[p][s].st = "live" /\ msgs[p][s].b = b}
FlightOwners(b) == {f \in InFlight : Part(f).b = b}
Owners(b) == Cardinality(SlotOwners(b)) + Cardinality(FlightOwners(b))
\* the transport may still be reading the buffer in order to deliver its bytes
BeingRead(b) == \E f \in InFlight : Part(f).src = b
Tag(m) == IF m.b = 0 THEN 0 ELSE bufs[m.b].tag
View(m) == [st |-> m.st, t |-> m.t, len |-> m.len, tag |-> IF m.st = "live" /\ m.len > 0 THEN Tag(m) ELSE 0]

(* the owner m of a buffer goes away *)
Drop(bs, m) ==
  IF m.st # "live" \/ m.b = 0 THEN bs
  ELSE LET x == bs[m.b]
           plain == x.kind = "region" /\ x.t = "shmem" /\ ~m.sh
           last == plain \/ x.rc = 1
       IN [bs EXCEPT ![m.b] = [x EXCEPT !.rc = IF plain THEN 0 ELSE @ - 1, !.freed = IF last THEN @ + 1 ELSE @,
                                        !.calls = IF last /\ x.kind # "alloc" /\ ~Early(x.t, x.kind) THEN @ + 1 ELSE @]]
\* bs with a new buffer, and the message referring to it; an allocation of no bytes has no buffer
WithNew(bs, p, t, kind, size, al, tag, blk) ==
  LET al2 == IF t = "zeromq" THEN al ELSE 0 IN
  IF kind = "alloc" /\ size = 0 THEN [bufs |-> bs, msg |-> [Live(t, 0, 0, FALSE) EXCEPT !.al = al2]]
  ELSE [bufs |-> Append(bs, Buf(t, kind, p, size, al, tag, blk)), msg |-> [Live(t, Len(bs) + 1, size, FALSE) EXCEPT !.al = al2, !.pr = al2]]

Put(p, s, m) == msgs' = [msgs EXCEPT ![p][s] = m]

New(p, s, t, kind, size, al, tag, blk) ==
  /\ msgs[p][s].st = "none"
  /\ LET r == WithNew(bufs, p, t, kind, size, al, tag, blk) IN bufs' = r.bufs /\ Put(p, s, r.msg)
  /\ touched' = {<<p, s>>} /\ UNCHANGED <<chan, stats>>
Rebuild(p, s, kind, size, al, tag) ==
  /\ msgs[p][s].st # "none" /\ kind # "region"
  /\ LET r == WithNew(Drop(bufs, msgs[p][s]), p, msgs[p][s].t, kind, size, al, tag, 0) IN bufs' = r.bufs /\ Put(p, s, r.msg)
  /\ touched' = {<<p, s>>} /\ UNCHANGED <<chan, stats>>
Destroy(p, s) ==
  /\ msgs[p][s].st # "none" /\ bufs' = Drop(bufs, msgs[p][s]) /\ Put(p, s, NoMsg)
  /\ touched' = {<<p, s>>} /\ UNCHANGED <<chan, stats>>
\* the user fills the message; only a sole owner may
CanWrite(p, s) == msgs[p][s].st = "live" /\ msgs[p][s].len > 0 /\ Owners(msgs[p][s].b) = 1 /\ ~BeingRead(msgs[p][s].b)
Write(p, s, tag) ==
  /\ CanWrite(p, s) /\ bufs' = [bufs EXCEPT ![msgs[p][s].b].tag = tag]
  /\ touched' = {<<p, s>>} /\ UNCHANGED <<msgs, chan, stats>>
\* refused beyond the present size; a buffer with other owners keeps its memory
SetUsed(p, s, n, al) ==
  /\ msgs[p][s].st = "live" /\ touched' = {<<p, s>>} /\ UNCHANGED <<chan, stats>>
  /\ LET m == msgs[p][s] IN
     IF n >= m.len THEN UNCHANGED <<msgs, bufs>>
     ELSE IF n = 0 /\ m.t = "shmem" THEN bufs' = Drop(bufs, m) /\ Put(p, s, Live(m.t, 0, 0, FALSE))
     ELSE /\ Put(p, s, [m EXCEPT !.len = n])
          /\ bufs' = IF m.t = "shmem" /\ bufs[m.b].kind # "region" /\ bufs[m.b].rc = 1 
                     THEN [bufs EXCEPT ![m.b].size = n, ![m.b].al = IF m.len - n < Realloc THEN @ ELSE IF al > 0 THEN al ELSE Min(@, 4096)] ELSE bufs
Copy(p, d, s) ==
  /\ d # s /\ msgs[p][s].st = "live" /\ (msgs[p][d].st = "none" \/ msgs[p][d].t = msgs[p][s].t)
  /\ touched' = {<<p, d>>} /\ UNCHANGED <<chan, stats>>
  /\ LET m == msgs[p][s]
         bs == Drop(bufs, msgs[p][d])
         reg == m.b > 0 /\ bufs[m.b].kind = "region" /\ m.t = "shmem"
         \* the copy's former buffer may be the very one: it has another owner, the source
         m2 == IF reg THEN [m EXCEPT !.sh = TRUE] ELSE m
     IN IF m.b = 0 THEN bufs' = bs /\ Put(p, d, [Live(m.t, 0, 0, FALSE) EXCEPT !.al = msgs[p][d].al])
        ELSE /\ bufs' = [bs EXCEPT ![m.b].rc = IF reg /\ ~m.sh THEN 2 ELSE @ + 1]
             /\ msgs' = [msgs EXCEPT ![p][s] = m2, ![p][d] = [m2 EXCEPT !.al = msgs[p][d].al, !.pr = 0]]

(* Transfer. Shared memory moves the reference; otherwise the bytes are delivered. *)
RECURSIVE Convey(_, _, _, _)
Convey(bs, p, ms, t) ==
  IF ms = <<>> THEN [bufs |-> bs, parts |-> <<>>]
  ELSE LET m == Head(ms)
           r == IF m.t = t /\ t = "shmem" THEN [bufs |-> bs, part |-> [b |-> m.b, len |-> m.len, sh |-> m.sh, src |-> 0]]
                ELSE LET dropped == Drop(bs, m) IN
                     IF m.len = 0 THEN [bufs |-> dropped, part |-> [b |-> 0, len |-> 0, sh |-> FALSE, src |-> IF m.t = t THEN m.b ELSE 0]]
                     ELSE [bufs |-> Append(dropped, Buf(t, "alloc", p, m.len, 0, bs[m.b].tag, 0)),
                           part |-> [b |-> Len(bs) + 1, len |-> m.len, sh |-> FALSE, src |-> IF t = "zeromq" THEN m.b ELSE 0]]
           rest == Convey(r.bufs, p, Tail(ms), t)
       IN [bufs |-> rest.bufs, parts |-> <<r.part>> \o rest.parts]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q).len + Sum(Tail(q))
Bytes(parts) == Sum(parts)
Send(p, to, ss, t, multi) ==
  /\ p # to /\ \A i \in 1..Len(ss) : msgs[p][ss[i]].st = "live"
  /\ \A i, j \in 1..Len(ss) : i # j => ss[i] # ss[j]
  /\ LET r == Convey(bufs, p, [i \in 1..Len(ss) |-> msgs[p][ss[i]]], t) IN
     /\ bufs' = r.bufs
     /\ chan' = [chan EXCEPT ![to][t] = Append(@, [multi |-> multi, parts |-> r.parts])]
     /\ msgs' = [msgs EXCEPT ![p] = [s \in Slots |-> IF s \in Range(ss) THEN Sent(msgs[p][s], t) ELSE msgs[p][s]]]
     /\ stats' = [stats EXCEPT ![p][t].mtx = @ + 1, ![p][t].btx = @ + Bytes(r.parts)]
     /\ touched' = {<<p, s>> : s \in Range(ss)}
\* a used message may be received into: what it held is released
Receive(p, ss, t) ==   \* al asked for before reception holds for what is received
  /\ chan[p][t] # <<>>
  /\ LET x == Head(chan[p][t]) IN
     /\ Len(ss) = Len(x.parts) /\ \A i, j \in 1..Len(ss) : i # j => ss[i] # ss[j]
     /\ x.multi => \A i \in 1..Len(ss) : msgs[p][ss[i]].st = "none"
     /\ bufs' = IF x.multi THEN bufs ELSE Drop(bufs, msgs[p][ss[1]])
     /\ msgs' = [msgs EXCEPT ![p] = [s \in Slots |-> IF \E i \in 1..Len(ss) : ss[i] = s
                   THEN LET y == x.parts[CHOOSE i \in 1..Len(ss) : ss[i] = s] IN [Live(t, y.b, y.len, y.sh) EXCEPT !.al = IF x.multi \/ msgs[p][s].t # t THEN 0 ELSE msgs[p][s].al, !.pr = IF x.multi \/ msgs[p][s].t # t THEN 0 ELSE msgs[p][s].al] ELSE msgs[p][s]]]
     /\ chan' = [chan EXCEPT ![p][t] = Tail(@)]
     /\ stats' = [stats EXCEPT ![p][t].mrx = @ + 1, ![p][t].brx = @ + Bytes(x.parts)]
     /\ touched' = {<<p, s>> : s \in Range(ss)}

\* ------------------------------------------------------------------ properties
B == 1..Len(bufs)
\* released exactly once, when the last owner is gone, and not before
ReleasedOnce == \A b \in B : bufs[b].freed = IF Owners(b) = 0 THEN 1 ELSE 0
\* the function of the user / the acknowledgement: exactly once, and never while a message shows the user's memory
CalledOnce == \A b \in B : LET x == bufs[b] IN
  x.calls = IF x.kind = "alloc" THEN 0 ELSE IF Early(x.t, x.kind) THEN 1 ELSE x.freed
\* the count of a buffer is the number of its owners; an uncounted block has one owner
CountRight == \A b \in B : LET x == bufs[b] IN Owners(b) > 0 =>
  IF x.kind = "region" /\ x.t = "shmem"
  THEN IF (\A o \in SlotOwners(b) : msgs[o[1]][o[2]].sh) /\ (\A f \in FlightOwners(b) : Part(f).sh)
       THEN x.rc = Owners(b) ELSE Owners(b) = 1
  ELSE x.rc = Owners(b)
\* no message shows more than its buffer has
Fits == \A p \in Procs, s \in Slots : LET m == msgs[p][s] IN m.st = "live" /\ m.b > 0 => m.len <= bufs[m.b].size
FlightFits == \A f \in InFlight : Part(f).b > 0 => Part(f).len <= bufs[Part(f).b].size
\* what is live is not released
NoDangling == \A p \in Procs, s \in Slots : msgs[p][s].st = "live" /\ msgs[p][s].b > 0 => bufs[msgs[p][s].b].freed = 0
\* no operation changes what another message shows
Untouched == [][\A p \in Procs, s \in Slots : <<p, s>> \notin touched' /\ msgs[p][s].st # "none" =>
   /\ msgs'[p][s].len = msgs[p][s].len /\ msgs'[p][s].st = msgs[p][s].st /\ msgs'[p][s].b = msgs[p][s].b
   /\ (msgs[p][s].st = "live" /\ msgs[p][s].b > 0 => bufs'[msgs[p][s].b].tag = bufs[msgs[p][s].b].tag)]_vars
\* bytes are neither lost nor made up on the way
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
RECURSIVE SeqBytes(_)
SeqBytes(q) == IF q = <<>> THEN 0 ELSE Bytes(Head(q).parts) + SeqBytes(Tail(q))
Conserved == \A t \in Transports :
  /\ SumOver(Procs, [p \in Procs |-> stats[p][t].mtx]) = SumOver(Procs, [p \in Procs |-> stats[p][t].mrx + Len(chan[p][t])])
  /\ SumOver(Procs, [p \in Procs |-> stats[p][t].btx]) = SumOver(Procs, [p \in Procs |-> stats[p][t].brx + SeqBytes(chan[p][t])])
=============================================================================
