--------------------------- MODULE Messages_Gen ---------------------------
(* Random histories of messages in two processes; each state has one successor,
   chosen at random (the seed is TLC's). Mix selects what is done how often.   *)
EXTENDS Messages, Json, TLC
CONSTANTS Steps, Mix, RegionHome
VARIABLES last, n, tag
Pick(S) == RandomElement(S)
PickSeq(q) == q[Pick(1..Len(q))]
Small == <<1, 2, 7, 16, 29, 30, 31, 32, 33, 34, 64, 100, 255, 256>>
Medium == <<1000, 1023, 4096, 5000, 32768, 65535, 65536, 100000>>
Large == <<999999, 1000001, 1500000, 3000000>>
ASize == PickSeq(PickSeq(<<<<0>>, Small, Small, Small, Medium, Medium, Large>>))
Al == PickSeq(<<0, 0, 0, 1, 2, 8, 16, 32, 64, 128, 256, 1024, 4096, 32768, 65536, 262144>>)
St(p, s) == msgs[p][s].st
Having(p, st) == {s \in Slots : St(p, s) \in st}
Q(p, t) == Len(chan[p][t])
Flying(p, t) == Q(p, t) # 0
Other(p) == CHOOSE q \in Procs : q # p
Blocks == Cardinality({b \in B : bufs[b].kind = "region"})
\* region blocks are 8192 bytes apart; zero-length blocks and full ones included
BSize == PickSeq(<<0, 1, 8, 100, 4096, 8191, 8192>>)
Weights ==
  CASE Mix = "life"  -> <<"new", "new", "new", "copy", "copy", "copy", "send", "send", "send", "recv", "recv", "recv", "msend", "mrecv", "mrecv", "destroy", "destroy", "used", "rebuild", "write">>
    [] Mix = "attr"  -> <<"new", "new", "new", "copy", "copy", "used", "used", "used", "used", "rebuild", "rebuild", "rebuild", "write", "write", "destroy", "send", "recv", "recv">>
    [] Mix = "region" -> <<"new", "new", "new", "new", "copy", "copy", "copy", "send", "send", "send", "recv", "recv", "recv", "msend", "mrecv", "destroy", "destroy", "destroy", "rebuild", "used", "write", "flush">>
    [] Mix = "xfer"  -> <<"new", "new", "new", "new", "send", "send", "send", "recv", "recv", "recv", "msend", "msend", "msend", "mrecv", "mrecv", "mrecv", "destroy", "copy", "used", "rebuild">>
Can(p, op) ==
  CASE op = "new" -> Having(p, {"none"}) # {}
    [] op \in {"rebuild", "destroy"} -> Having(p, {"live", "sent"}) # {}
    [] op = "used" -> Having(p, {"live"}) # {}
    [] op = "write" -> \E s \in Slots : CanWrite(p, s)
    [] op = "copy" -> \E s, d \in Slots : s # d /\ St(p, s) = "live" /\ (St(p, d) = "none" \/ msgs[p][d].t = msgs[p][s].t)
    [] op = "send" -> Having(p, {"live"}) # {} /\ \E t \in Transports : Q(Other(p), t) < 3
    [] op = "msend" -> Having(p, {"live"}) # {} /\ \E t \in Transports : Q(Other(p), t) < 3
    [] op = "recv" -> \E t \in Transports : Flying(p, t) /\ ~Head(chan[p][t]).multi
    [] op = "mrecv" -> \E t \in Transports : Flying(p, t) /\ Head(chan[p][t]).multi /\ Len(Head(chan[p][t]).parts) <= Cardinality(Having(p, {"none"}))
    [] op = "flush" -> TRUE
    [] OTHER -> FALSE
RECURSIVE RandomSeq(_, _)
RandomSeq(S, k) == IF k = 0 THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o RandomSeq(S \ {x}, k - 1)
Lab(op, p, ss, t, kind, size, al, blk) == [op |-> op, p |-> p, ss |-> ss, t |-> t, kind |-> kind, size |-> size, al |-> al, blk |-> blk, tag |-> tag + 1]
GInit == Init /\ last = [op |-> "init"] /\ n = 0 /\ tag = 0
DoNew(p) ==
  \E s \in {Pick(Having(p, {"none"}))} : \E t \in {Pick(Transports)} :
  \E k \in {PickSeq(IF Mix = "region" /\ p = RegionHome THEN <<"region", "region", "region", "region", "alloc", "user">>
                    ELSE IF RegionHome = p THEN <<"alloc", "alloc", "user", "region">> ELSE <<"alloc", "alloc", "user">>)} :
  \E kind \in {IF k = "region" /\ (Blocks >= 60) THEN "alloc" ELSE k} :
  \E z \in {IF kind = "region" THEN BSize ELSE ASize} : \E al \in {IF kind = "alloc" THEN Al ELSE 0} :
    New(p, s, t, kind, z, al, tag + 1, Blocks) /\ last' = Lab("new", p, <<s>>, t, kind, z, al, Blocks)
DoRebuild(p) ==
  \E s \in {Pick(Having(p, {"live", "sent"}))} : \E kind \in {PickSeq(<<"alloc", "alloc", "user">>)} : \E z \in {ASize} : \E al \in {IF kind = "alloc" THEN Al ELSE 0} :
    Rebuild(p, s, kind, z, al, tag + 1) /\ last' = Lab("rebuild", p, <<s>>, msgs[p][s].t, kind, z, al, 0)
DoDestroy(p) == \E s \in {Pick(Having(p, {"live", "sent"}))} : Destroy(p, s) /\ last' = Lab("destroy", p, <<s>>, msgs[p][s].t, "", 0, 0, 0)
DoWrite(p) == \E s \in {Pick({s \in Slots : CanWrite(p, s)})} : Write(p, s, tag + 1) /\ last' = Lab("write", p, <<s>>, msgs[p][s].t, "", 0, 0, 0)
DoUsed(p) ==
  \E s \in {Pick(Having(p, {"live"}))} : \E z \in {LET l == msgs[p][s].len IN
      PickSeq(<<l, l + 1, l + 1000, 0, l \div 2, l \div 2, IF l > 1 THEN l - 1 ELSE l, IF l > 140 THEN l - 140 ELSE 1, IF l > 1000200 THEN l - 1000100 ELSE l \div 3, IF l > 1 THEN 1 ELSE 0>>)} :
    \E al \in {PickSeq(<<0, 0, 64, 16384>>)} : SetUsed(p, s, z, al) /\ last' = Lab("used", p, <<s>>, msgs[p][s].t, "", z, al, 0)
DoCopy(p) ==
  \E sd \in {Pick({x \in Slots \X Slots : x[1] # x[2] /\ St(p, x[1]) = "live" /\ (St(p, x[2]) = "none" \/ msgs[p][x[2]].t = msgs[p][x[1]].t)})} :
    Copy(p, sd[2], sd[1]) /\ last' = Lab("copy", p, <<sd[2], sd[1]>>, msgs[p][sd[1]].t, "", 0, 0, 0)
DoSend(p, multi) ==
  \E t \in {Pick({t \in Transports : Q(Other(p), t) < 3})} :
  \E ss \in {IF multi THEN RandomSeq(Having(p, {"live"}), Pick(1..Cardinality(Having(p, {"live"})))) ELSE RandomSeq(Having(p, {"live"}), 1)} :
    Send(p, Other(p), ss, t, multi) /\ last' = Lab(IF multi THEN "msend" ELSE "send", p, ss, t, "", 0, 0, 0)
DoRecv(p, multi) ==
  \E t \in {Pick({t \in Transports : Flying(p, t) /\ Head(chan[p][t]).multi = multi /\ (multi => Len(Head(chan[p][t]).parts) <= Cardinality(Having(p, {"none"})))})} :
  \E ss \in {IF multi THEN RandomSeq(Having(p, {"none"}), Len(Head(chan[p][t]).parts)) ELSE <<Pick(Slots)>>} :
    Receive(p, ss, t) /\ last' = Lab(IF multi THEN "mrecv" ELSE "recv", p, ss, t, "", 0, 0, 0)
GNext ==
  /\ n < Steps /\ n' = n + 1 /\ tag' = tag + 1
  /\ \E p0 \in {Pick(Procs)} : \E p \in {IF \E i \in 1..Len(Weights) : Can(p0, Weights[i]) THEN p0 ELSE Other(p0)} :
     \E op \in {PickSeq(SelectSeq(Weights, LAMBDA w : Can(p, w)))} :
        CASE op = "new" -> DoNew(p)
          [] op = "rebuild" -> DoRebuild(p)
          [] op = "destroy" -> DoDestroy(p)
          [] op = "write" -> DoWrite(p)
          [] op = "used" -> DoUsed(p)
          [] op = "copy" -> DoCopy(p)
          [] op = "send" -> DoSend(p, FALSE)
          [] op = "msend" -> DoSend(p, TRUE)
          [] op = "recv" -> DoRecv(p, FALSE)
          [] op = "mrecv" -> DoRecv(p, TRUE)
          [] op = "flush" -> touched' = {} /\ UNCHANGED <<msgs, bufs, chan, stats>> /\ last' = Lab("flush", p, <<>>, "", "", 0, 0, 0)
GSpec == GInit /\ [][GNext]_<<vars, last, n, tag>>
\* what can be observed
\* the alignment promised for what a message shows; another process sees a buffer page-aligned at best
Aligned(p, m) ==
  IF m.st # "live" \/ m.len = 0 \/ m.b = 0 THEN 0
  ELSE LET x == bufs[m.b] IN IF m.t = "zeromq" THEN m.pr ELSE IF x.home = p THEN x.al ELSE Min(x.al, 4096)
State == [slots |-> [p \in Procs |-> [s \in Slots |-> LET m == msgs[p][s] v == View(m) IN [v EXCEPT !.tag = <<@, IF m.st = "live" THEN m.b ELSE 0, Aligned(p, m)>>]]],
          bufs |-> [b \in B |-> [k |-> bufs[b].kind, t |-> bufs[b].t, home |-> bufs[b].home, size |-> bufs[b].size, al |-> bufs[b].al, blk |-> bufs[b].blk, calls |-> bufs[b].calls,
                                 st |-> IF Owners(b) > 0 THEN "live" ELSE IF BeingRead(b) THEN "read" ELSE "gone"]],
          stats |-> stats, flying |-> [p \in Procs |-> [t \in Transports |-> [i \in 1..Q(p, t) |-> chan[p][t][i].multi]]]]
Emit == PrintT("EDGE " \o ToJson([n |-> n', a |-> last', t |-> State']))
=============================================================================
