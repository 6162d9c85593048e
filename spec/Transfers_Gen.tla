--------------------------- MODULE Transfers_Gen ---------------------------
(* Replay grain: after every operation everything that can happen has happened.
   Messages on the way are told apart by kind only ("s" single, "p" parts); the
   driver checks that they arrive exactly in the order of the successful sends.
   Limits: "0" none, "t" a limit that runs out while nothing else happens,
   "l" a long limit, "inf" unlimited, "d" the channel's default.               *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS Cap0, Cap, MayFill, DefS, DefR   \* room before and after the receiver attached (not to be used up unless MayFill); default limits
VARIABLES q, att, intr, cur, ws, wr, last
(* cur: kind of message a failed send left with the sender; ws, wr: blocked transfers ("no" or kind) *)
GView == [q |-> q, att |-> att, intr |-> intr, cur |-> cur, ws |-> ws, wr |-> wr]
gvars == <<q, att, intr, cur, ws, wr, last>>
Kinds == {"s", "p"}
GInit == q = <<>> /\ att = FALSE /\ intr = FALSE /\ cur = "no" /\ ws = "no" /\ wr = "no" /\ last = [op |-> "init"]
Room == IF att THEN Cap ELSE Cap0
Lab(op, k, lim, sig, res, s, r) == last' = [op |-> op, k |-> k, lim |-> lim, sig |-> sig, res |-> res, s |-> s, r |-> r]
Lim(e, l) == IF l = "d" THEN (IF e = "s" THEN DefS ELSE DefR) ELSE l
Fail(l) == IF intr THEN "interrupted" ELSE "timeout"
Send(k, l, sig) ==
  /\ ws = "no" /\ cur \in {"no", k} /\ wr \in {"no", k}
  /\ (att /\ ~MayFill) => Len(q) < Cap
  /\ sig => Lim("s", l) = "t" /\ ~intr /\ Len(q) = Room
  /\ UNCHANGED <<att, intr>>
  /\ IF Len(q) < Room
     THEN /\ cur' = "no" /\ ws' = "no"
          /\ IF wr # "no" /\ att THEN wr' = "no" /\ UNCHANGED q /\ Lab("send", k, l, sig, "ok", "", "ok")
             ELSE q' = Append(q, k) /\ UNCHANGED wr /\ Lab("send", k, l, sig, "ok", "", "")
     ELSE IF Lim("s", l) \in {"0", "t"} \/ intr
     THEN UNCHANGED <<q, ws, wr>> /\ cur' = k /\ Lab("send", k, l, sig, Fail(l), "", "")
     ELSE UNCHANGED <<q, wr>> /\ cur' = "no" /\ ws' = k /\ Lab("send", k, l, sig, "blocked", "", "")
Recv(k, l, sig) ==
  /\ wr = "no"
  /\ (att /\ q # <<>>) => k = Head(q)
  /\ (~att /\ q # <<>>) => k = Head(q)
  /\ (q = <<>> /\ ws # "no") => k = ws
  /\ (q = <<>> /\ ws = "no" /\ cur # "no") => k = cur
  /\ sig => Lim("r", l) = "t" /\ ~intr /\ ~(att /\ q # <<>>)
  /\ UNCHANGED <<att, intr>>
  /\ IF att /\ q # <<>>
     THEN /\ UNCHANGED <<wr, cur>>
          /\ IF ws # "no" THEN ws' = "no" /\ q' = Append(Tail(q), ws) /\ Lab("recv", k, l, sig, "ok", "ok", "")
             ELSE q' = Tail(q) /\ UNCHANGED ws /\ Lab("recv", k, l, sig, "ok", "", "")
     ELSE IF Lim("r", l) \in {"0", "t"} \/ intr
     THEN UNCHANGED <<q, ws, wr, cur>> /\ Lab("recv", k, l, sig, Fail(l), "", "")
     ELSE UNCHANGED <<q, ws, cur>> /\ wr' = k /\ Lab("recv", k, l, sig, "blocked", "", "")
\* the receiver attaches: what is on the way arrives, and a blocked send may go on
Attach ==
  /\ ~att /\ wr = "no" /\ att' = TRUE /\ UNCHANGED <<intr, cur>>
  /\ LET q1 == IF ws # "no" /\ Len(q) < Cap THEN Append(q, ws) ELSE q IN
     /\ (wr # "no" /\ q1 # <<>>) => Head(q1) = wr
     /\ (ws # "no" => Len(q) < Cap)
     /\ ws' = "no"
     /\ IF wr # "no" /\ q1 # <<>> THEN q' = Tail(q1) /\ wr' = "no" ELSE q' = q1 /\ UNCHANGED wr
     /\ Lab("attach", "", "", FALSE, "ok", IF ws # "no" THEN "ok" ELSE "", IF wr # "no" /\ q1 # <<>> THEN "ok" ELSE "")
Interrupt ==
  /\ ~intr /\ intr' = TRUE /\ UNCHANGED <<q, att>>
  /\ ws' = "no" /\ wr' = "no" /\ cur' = IF ws # "no" THEN ws ELSE cur
  /\ Lab("interrupt", "", "", FALSE, "ok", IF ws # "no" THEN "interrupted" ELSE "", IF wr # "no" THEN "interrupted" ELSE "")
Resume == intr /\ intr' = FALSE /\ UNCHANGED <<q, att, cur, ws, wr>> /\ Lab("resume", "", "", FALSE, "ok", "", "")
Drop == cur # "no" /\ cur' = "no" /\ UNCHANGED <<q, att, intr, ws, wr>> /\ Lab("drop", "", "", FALSE, "ok", "", "")
\* signals reach a blocked thread: nothing happens
Signals == (ws # "no" \/ wr # "no") /\ UNCHANGED <<q, att, intr, cur, ws, wr>> /\ Lab("signals", "", "", FALSE, "ok", "", "")
GNext == Attach \/ Interrupt \/ Resume \/ Drop \/ Signals
         \/ \E k \in Kinds, l \in {"0", "t", "l", "inf", "d"}, sig \in BOOLEAN : Send(k, l, sig) \/ Recv(k, l, sig)
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
