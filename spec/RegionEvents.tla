---------------------------- MODULE RegionEvents ----------------------------
(* Regions of a session and those who subscribed to their events. Creations and
   destructions are counted in the session; a subscription that finds the count
   changed takes a snapshot of all regions and reports what is new in it. A
   region may vanish between snapshot and report (it is looked up only then).   *)
EXTENDS Naturals, FiniteSets
CONSTANTS Regions, Subs
VARIABLES reg, cnt, st, seen, nobs, snap, before
vars == <<reg, cnt, st, seen, nobs, snap, before>>
Init == /\ reg = [r \in Regions |-> "none"] /\ cnt = 0
        /\ st = [s \in Subs |-> "off"] /\ seen = [s \in Subs |-> [r \in Regions |-> "none"]]
        /\ nobs = [s \in Subs |-> 0] /\ snap = [s \in Subs |-> {}] /\ before = [s \in Subs |-> {}]
Create(r) == reg[r] = "none" /\ reg' = [reg EXCEPT ![r] = "live"] /\ cnt' = cnt + 1 /\ UNCHANGED <<st, seen, nobs, snap, before>>
Destroy(r) == reg[r] = "live" /\ reg' = [reg EXCEPT ![r] = "gone"] /\ cnt' = cnt + 1 /\ UNCHANGED <<st, seen, nobs, snap, before>>
Subscribe(s) == /\ st[s] = "off" /\ st' = [st EXCEPT ![s] = "on"]
                /\ before' = [before EXCEPT ![s] = {r \in Regions : reg[r] = "gone"}] /\ UNCHANGED <<reg, cnt, seen, nobs, snap>>
Known(s) == {r \in Regions : seen[s][r] # "none"}
Poll(s) == /\ st[s] = "on" /\ snap[s] = {} /\ nobs[s] # cnt
           /\ snap' = [snap EXCEPT ![s] = {<<r, reg[r]>> : r \in {x \in Regions : reg[x] # "none"}}]
           /\ UNCHANGED <<reg, cnt, st, seen, nobs, before>>
Look(s, e) ==
  /\ e \in snap[s] /\ snap' = [snap EXCEPT ![s] = @ \ {e}] /\ UNCHANGED <<reg, cnt, st, before>>
  /\ IF e[2] = "live"
     THEN IF seen[s][e[1]] = "none"
          THEN \/ seen' = [seen EXCEPT ![s][e[1]] = "created"] /\ nobs' = [nobs EXCEPT ![s] = @ + 1]
               \/ reg[e[1]] = "gone" /\ UNCHANGED <<seen, nobs>>
          ELSE UNCHANGED <<seen, nobs>>
     ELSE IF seen[s][e[1]] = "created" THEN seen' = [seen EXCEPT ![s][e[1]] = "destroyed"] /\ nobs' = [nobs EXCEPT ![s] = @ + 1]
     ELSE IF seen[s][e[1]] = "none" THEN seen' = [seen EXCEPT ![s][e[1]] = "skipped"] /\ nobs' = [nobs EXCEPT ![s] = @ + 2]
     ELSE UNCHANGED <<seen, nobs>>
\* ending a subscription waits for the reports under way
Unsubscribe(s) == st[s] = "on" /\ snap[s] = {} /\ st' = [st EXCEPT ![s] = "ended"] /\ UNCHANGED <<reg, cnt, seen, nobs, snap, before>>
Next == \/ \E r \in Regions : Create(r) \/ Destroy(r)
        \/ \E s \in Subs : Subscribe(s) \/ Poll(s) \/ Unsubscribe(s) \/ \E e \in snap[s] : Look(s, e)
Spec == Init /\ [][Next]_vars /\ \A s \in Subs : WF_vars(Poll(s)) /\ WF_vars(\E e \in snap[s] : Look(s, e))
\* the count is a sound hint: nothing new, nothing missed
HintSound == \A s \in Subs : st[s] = "on" /\ snap[s] = {} /\ nobs[s] = cnt =>
   \A r \in Regions : (reg[r] = "live" => seen[s][r] = "created") /\ (reg[r] = "gone" => seen[s][r] \in {"destroyed", "skipped"})
NothingOld == \A s \in Subs : \A r \in before[s] : seen[s][r] \in {"none", "skipped"}
NothingInvented == \A s \in Subs : \A r \in Regions : (seen[s][r] # "none" => reg[r] # "none") /\ (seen[s][r] = "destroyed" => reg[r] = "gone")
\* once each, in order, nothing after the end
Heard == [][\A s \in Subs : \A r \in Regions : seen'[s][r] # seen[s][r] =>
   /\ st[s] = "on"
   /\ <<seen[s][r], seen'[s][r]>> \in {<<"none", "created">>, <<"created", "destroyed">>, <<"none", "skipped">>}]_vars
AllHeard == \A s \in Subs : \A r \in Regions :
   /\ (st[s] = "on" /\ reg[r] = "live") ~> (seen[s][r] = "created" \/ reg[r] = "gone" \/ st[s] = "ended")
   /\ (st[s] = "on" /\ reg[r] = "gone" /\ seen[s][r] = "created") ~> (seen[s][r] = "destroyed" \/ st[s] = "ended")
=============================================================================
