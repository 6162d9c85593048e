-------------------------- MODULE OutOfMemory_Gen --------------------------
(* Replay grain: two users with policies of their own share a segment with room
   for K small messages or one big one; at most one allocation waits at a time.
   Policies: "one" attempt, "three" attempts, "many" attempts, "inf"           *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS PA, PB, K
VARIABLES s, b, wt, intr, last
(* s[u]: small messages held; b: who holds the big one; wt: [u, k, how] waiting *)
GView == [s |-> s, b |-> b, wt |-> wt, intr |-> intr]
gvars == <<s, b, wt, intr, last>>
Users == {"A", "B"}
Pol(u) == IF u = "A" THEN PA ELSE PB
No == [u |-> "", k |-> "", how |-> ""]
GInit == s = [u \in Users |-> 0] /\ b = "" /\ wt = No /\ intr = [u \in Users |-> FALSE] /\ last = [op |-> "init"]
Fits(ss, bb, k) == IF k = "s" THEN bb = "" /\ ss["A"] + ss["B"] < K ELSE bb = "" /\ ss["A"] + ss["B"] = 0
Has(u, k) == IF k = "s" THEN s[u] > 0 ELSE b = u
AddS(ss, u, k) == IF k = "s" THEN [ss EXCEPT ![u] = @ + 1] ELSE ss
AddB(bb, u, k) == IF k = "b" THEN u ELSE bb
DelS(u, k) == IF k = "s" THEN [s EXCEPT ![u] = @ - 1] ELSE s
DelB(u, k) == IF k = "b" THEN "" ELSE b
Lab(op, u, k, x, at, res, w) == last' = [op |-> op, u |-> u, k |-> k, x |-> x, at |-> at, res |-> res, w |-> w]
Hows == {"new", "aligned", "user"}
\* the allocation when the held messages are ss, bb
Outcome(op, u, k, x, ss, bb) ==
  IF Fits(ss, bb, k) THEN s' = AddS(ss, u, k) /\ b' = AddB(bb, u, k) /\ UNCHANGED wt /\ Lab(op, u, k, x, 0, "ok", "")
  ELSE /\ s' = ss /\ b' = bb
       /\ IF Pol(u) \in {"one", "three"} \/ intr[u] THEN UNCHANGED wt /\ Lab(op, u, k, x, 0, IF Pol(u) = "three" /\ ~intr[u] THEN "refused3" ELSE IF Pol(u) = "one" THEN "refused1" ELSE "refused", "")
          ELSE wt' = [u |-> u, k |-> k, how |-> op] /\ Lab(op, u, k, x, 0, "blocked", "")
Alloc(u, k, how) == wt = No /\ UNCHANGED intr /\ Outcome(how, u, k, "", s, b)
\* a message is created anew within an existing one, whose memory is given back first
Rebuild(u, k, x) == wt = No /\ Has(u, x) /\ UNCHANGED intr /\ Outcome("rebuild", u, k, x, DelS(u, x), DelB(u, x))
\* something is freed by v (maybe another thread of the same user) while u sleeps for the i-th time
Late(u, k, v, x, i) ==
  /\ wt = No /\ Pol(u) = "three" /\ ~intr[u] /\ ~Fits(s, b, k) /\ Has(v, x) /\ UNCHANGED <<wt, intr>>
  /\ IF i < 3 /\ Fits(DelS(v, x), DelB(v, x), k)
     THEN s' = AddS(DelS(v, x), u, k) /\ b' = AddB(DelB(v, x), u, k) /\ Lab("late" \o v, u, k, x, i, "ok", "")
     ELSE s' = DelS(v, x) /\ b' = DelB(v, x) /\ Lab("late" \o v, u, k, x, i, "refused3", "")
Over(u) == wt = No /\ UNCHANGED <<s, b, wt, intr>> /\ Lab("over", u, "", "", 0, "refused1", "")
FreeOne(v, x) ==
  /\ Has(v, x) /\ UNCHANGED intr
  /\ IF wt # No /\ Fits(DelS(v, x), DelB(v, x), wt.k)
     THEN s' = AddS(DelS(v, x), wt.u, wt.k) /\ b' = AddB(DelB(v, x), wt.u, wt.k) /\ wt' = No /\ Lab("free", v, x, "", 0, "ok", "ok")
     ELSE s' = DelS(v, x) /\ b' = DelB(v, x) /\ UNCHANGED wt /\ Lab("free", v, x, "", 0, "ok", "")
Interrupt(u) ==
  /\ ~intr[u] /\ intr' = [intr EXCEPT ![u] = TRUE] /\ UNCHANGED <<s, b>>
  /\ IF wt.u = u THEN wt' = No /\ Lab("interrupt", u, "", "", 0, "ok", "refused") ELSE UNCHANGED wt /\ Lab("interrupt", u, "", "", 0, "ok", "")
Resume(u) == intr[u] /\ intr' = [intr EXCEPT ![u] = FALSE] /\ UNCHANGED <<s, b, wt>> /\ Lab("resume", u, "", "", 0, "ok", "")
GNext == \E u \in Users : Interrupt(u) \/ Resume(u) \/ Over(u) \/ \E k \in {"s", "b"} : FreeOne(u, k) \/ (\E how \in Hows : Alloc(u, k, how))
           \/ (\E x \in {"s", "b"} : Rebuild(u, k, x) \/ \E v \in Users, i \in 1..3 : Late(u, k, v, x, i))
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
