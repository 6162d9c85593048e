------------------------- MODULE DeviceControl_Gen -------------------------
(* Replay grain: waits that can complete have completed after each operation. *)
EXTENDS DeviceControl, Json, Sequences
CONSTANT MaxWaiting
VARIABLES last, blocked
GView == [ctrl |-> ctrl, dev |-> dev, blocked |-> blocked]
GInit == Init /\ blocked = 0 /\ last = [op |-> "init"]
Lab(op, w, t, r) == /\ Apply(r)
                    /\ blocked' = IF r.ctrl = None THEN 0 ELSE blocked
                    /\ last' = [op |-> op, who |-> w, tr |-> t, res |-> r.res, freed |-> IF r.ctrl = None THEN blocked ELSE 0]
GNext == /\ UNCHANGED <<waiting, waking>>
         /\ \/ \E w \in Clients : \/ Lab("take", w, "", DoTake(ctrl, dev, w))
                                  \/ Lab("steal", w, "", DoSteal(ctrl, dev, w))
                                  \/ Lab("release", w, "", DoRelease(ctrl, dev, w))
                                  \/ \E t \in Transitions : Lab("change", w, t, DoChange(ctrl, dev, w, t))
            \/ /\ blocked < MaxWaiting /\ UNCHANGED <<ctrl, dev>>
               /\ blocked' = IF ctrl = None THEN 0 ELSE blocked + 1
               /\ last' = [op |-> "wait", who |-> "", tr |-> "", res |-> "ok", freed |-> IF ctrl = None THEN 1 ELSE 0]
GSpec == GInit /\ [][GNext]_<<vars, last, blocked>>
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
