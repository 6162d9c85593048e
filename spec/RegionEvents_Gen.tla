-------------------------- MODULE RegionEvents_Gen --------------------------
(* Replay grain: one step at a time, everybody has heard everything before the
   next. Instances A and B of a transport; with Shared they are in one session,
   otherwise each is its own. B may leave and come back with another segment.   *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Shared, MaxRegions
VARIABLES reg, on, up, segs, last
(* reg: sequence of [o: creator, live]; on: who is subscribed; segs: managed segments of the session *)
gvars == <<reg, on, up, segs, last>>
GView == [reg |-> reg, on |-> on, up |-> up, segs |-> segs]
I == {"A", "B"}
GInit == reg = <<>> /\ on = {} /\ up = TRUE /\ segs = {0} /\ last = [op |-> "init"]
Is(i) == i = "A" \/ up
Sees(i, o) == Shared \/ i = o
N(x) == ToString(x)
\* what i hears when the regions in S are created resp. destroyed by o
Ev(i, o, kind, r) == IF i \in on /\ Sees(i, o) THEN {kind \o N(r)} ELSE {}
Lab(op, i, how, r, res, a, b, opt) == last' = [op |-> op, i |-> i, how |-> how, r |-> r, res |-> res, a |-> a, b |-> b, opt |-> opt]
Live == {r \in DOMAIN reg : reg[r].live}
LiveOf(i) == {r \in Live : reg[r].o = i}
Create(i, how) ==
  /\ Is(i) /\ Len(reg) < MaxRegions /\ reg' = Append(reg, [o |-> i, live |-> TRUE])
  /\ UNCHANGED <<on, up, segs>>
  /\ Lab("create", i, how, Len(reg) + 1, "ok", Ev("A", i, "c", Len(reg) + 1), Ev("B", i, "c", Len(reg) + 1), FALSE)
\* an id that is or was in use: refused, or (without explicit ids) just another region
Again(i, r) ==
  /\ Is(i) /\ r \in DOMAIN reg /\ (reg[r].live => reg[r].o = i)
  /\ IF Shared THEN UNCHANGED <<reg, on, up, segs>> /\ Lab("create", i, "id" \o N(r), 0, "refused", {}, {}, FALSE)
     ELSE Create(i, "id" \o N(r))
\* created and destroyed in a moment: with polling subscribers all or nothing is heard
Quick(i, how) ==
  /\ Is(i) /\ Len(reg) < MaxRegions /\ reg' = Append(reg, [o |-> i, live |-> FALSE]) /\ UNCHANGED <<on, up, segs>>
  /\ Lab("quick", i, how, Len(reg) + 1, "ok", Ev("A", i, "c", Len(reg) + 1) \cup Ev("A", i, "d", Len(reg) + 1),
         Ev("B", i, "c", Len(reg) + 1) \cup Ev("B", i, "d", Len(reg) + 1), Shared)
Destroy(r) ==
  /\ r \in Live /\ reg' = [reg EXCEPT ![r].live = FALSE] /\ UNCHANGED <<on, up, segs>>
  /\ Lab("destroy", reg[r].o, "", r, "ok", Ev("A", reg[r].o, "d", r), Ev("B", reg[r].o, "d", r), FALSE)
Base(i) == IF Shared THEN {"s" \o N(x) : x \in segs} ELSE {"l"}
All(i) == Base(i) \cup {"c" \o N(r) : r \in {x \in Live : Sees(i, reg[x].o)}}
Sub(i) ==
  /\ Is(i) /\ on' = on \cup {i} /\ UNCHANGED <<reg, up, segs>>
  /\ Lab("sub", i, IF i \in on THEN "replace" ELSE "", 0, "ok", IF i = "A" THEN All(i) ELSE {}, IF i = "B" THEN All(i) ELSE {}, FALSE)
Unsub(i) == Is(i) /\ i \in on /\ on' = on \ {i} /\ UNCHANGED <<reg, up, segs>> /\ Lab("unsub", i, "", 0, "ok", {}, {}, FALSE)
List(i) ==
  /\ Is(i) /\ UNCHANGED <<reg, on, up, segs>>
  /\ Lab("list", i, "", 0, "ok", IF i = "A" THEN All(i) \ {"l"} ELSE {}, IF i = "B" THEN All(i) \ {"l"} ELSE {}, FALSE)
Leave == up /\ LiveOf("B") = {} /\ up' = FALSE /\ on' = on \ {"B"} /\ UNCHANGED <<reg, segs>> /\ Lab("leave", "B", "", 0, "ok", {}, {}, FALSE)
Join(x) ==
  /\ ~up /\ up' = TRUE /\ segs' = (IF Shared THEN segs \cup {x} ELSE segs) /\ UNCHANGED <<reg, on>>
  /\ Lab("join", "B", N(x), 0, "ok", IF Shared /\ x \notin segs /\ "A" \in on THEN {"s" \o N(x)} ELSE {}, {}, FALSE)
Hows == {"auto", "fresh", "near", "path"}
GNext == \/ \E i \in I : Sub(i) \/ Unsub(i) \/ List(i) \/ (\E h \in Hows : Create(i, h)) \/ (\E h \in {"auto", "near"} : Quick(i, h)) \/ \E r \in DOMAIN reg : Again(i, r)
         \/ (\E r \in DOMAIN reg : Destroy(r)) \/ Leave \/ \E x \in 0..2 : Join(x)
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
