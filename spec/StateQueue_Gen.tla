--------------------------- MODULE StateQueue_Gen ---------------------------
(* Replay grain: consumers of one kind at a time; after every operation whatever
   can complete has completed. The label carries the completions (as a bag).    *)
EXTENDS StateQueue, Json
CONSTANT MaxN          \* consumers waiting at the same time
VARIABLES wk, n, last  \* kind and number of the waiting consumers
GView == [q |-> q, flag |-> flag, wk |-> wk, n |-> n]
GInit == Init /\ wk = Idle /\ n = 0 /\ last = [op |-> "init"]
gvars == <<vars, wk, n, last>>

RdY(k, qq, f) == CASE k \in {"next", "timed", "state"} -> qq # <<>>
                   [] k \in {"nextor", "stateor"} -> qq # <<>> \/ f
                   [] k = "custom" -> f
\* all completions of m consumers [k, s] given queue and condition: [q, m, res]
RECURSIVE Settle(_, _, _, _, _)
Settle(w, m, qq, f, res) ==
  IF m = 0 \/ ~RdY(w.k, qq, f) THEN [q |-> qq, n |-> m, res |-> res]
  ELSE IF qq = <<>> THEN Settle(w, m - 1, qq, f, Append(res, IF w.k = "stateor" THEN "end" ELSE "none"))
  ELSE IF Head(qq) = Err THEN Settle(w, m - 1, qq, f, Append(res, "throw"))
  ELSE LET h == Head(qq)
           fin == CASE w.k = "state" -> h = w.s [] w.k = "stateor" -> h = w.s \/ f [] OTHER -> TRUE
           r == IF w.k \in {"state", "stateor"} THEN "end" ELSE h
       IN IF fin THEN Settle(w, m - 1, Tail(qq), f, Append(res, r)) ELSE Settle(w, m, Tail(qq), f, res)

Done(op, arg, f, w, st) ==
  /\ q' = st.q /\ flag' = f /\ n' = st.n /\ wk' = IF st.n = 0 THEN Idle ELSE w
  /\ last' = [op |-> op, arg |-> arg, flag |-> f, res |-> st.res]


GPush == \E s \in Alphabet, f \in BOOLEAN, plain \in BOOLEAN :
           /\ Len(q) < MaxQ /\ (plain => f = flag)
           /\ Done(IF plain THEN "push" ELSE "pushsig", s, f, wk, Settle(wk, n, Append(q, s), f, <<>>))
GNotify == \E f \in BOOLEAN : Done("notify", "", f, wk, Settle(wk, n, q, f, <<>>))
GLocked == \E f \in BOOLEAN : n = 0 /\ f # flag /\ Done("locked", "", f, wk, [q |-> q, n |-> 0, res |-> <<>>])
GClear == Done("clear", "", flag, wk, [q |-> <<>>, n |-> n, res |-> <<>>])
GCall == \E k \in Kinds : \E s \in (IF k \in {"state", "stateor"} THEN {"A", "B"} ELSE {""}) :
           LET w == [k |-> k, s |-> s] IN
           /\ n < MaxN /\ (n = 0 \/ w = wk)
           /\ Done("wait", k \o ":" \o s, flag, w, Settle(w, n + 1, q, flag, <<>>))
\* a timed wait short enough to run out
GTimeout == n = 0 /\ Done("short", "", flag, wk,
             IF q = <<>> THEN [q |-> q, n |-> 0, res |-> <<"none">>] ELSE Settle([k |-> "next", s |-> ""], 1, q, flag, <<>>))
GNext == (GPush \/ GNotify \/ GLocked \/ GClear \/ GCall \/ GTimeout) /\ UNCHANGED <<wait, pushed, gone, ops>>
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
