----------------------------- MODULE Config_Gen -----------------------------
EXTENDS Config, Json
CONSTANT AllMaps         \* BOOLEAN: multi-property writes
VARIABLES last
GView == [store |-> store, subs |-> subs]
GInit == Init /\ last = [op |-> "init"]
Lab(op, key, m, r, known) ==
  /\ store' = r.s
  /\ last' = [op |-> op, key |-> key, m |-> m, ok |-> r.ok, told |-> HeardBy(subs, r.told), known |-> known, sub |-> <<>>]
NoMap == [k \in Keys |-> Absent]
GWrite == UNCHANGED subs /\
  ( \/ \E k \in Keys, x \in Values : Lab("set", k, Only(k, x), DoSet(store, Only(k, x)), TRUE)
    \/ \E k \in Keys, x \in Values : Lab("update", k, Only(k, x), DoUpdate(store, Only(k, x)), TRUE)
    \/ \E m \in Maps : AllMaps /\ m # NoMap /\ Lab("setm", "", m, DoSet(store, m), TRUE)
    \/ \E m \in Maps : AllMaps /\ m # NoMap /\ Lab("updatem", "", m, DoUpdate(store, m), TRUE)
    \/ \E k \in Keys : Lab("del", k, NoMap, DoDelete(store, k), Has(store, k)) )
GSub == UNCHANGED store /\ \E x \in Subscriptions :
    \/ subs' = subs \cup {x} /\ last' = [op |-> "sub", key |-> "", m |-> NoMap, ok |-> TRUE, told |-> {}, known |-> x \in subs, sub |-> x]
    \/ subs' = subs \ {x} /\ last' = [op |-> "unsub", key |-> "", m |-> NoMap, ok |-> TRUE, told |-> {}, known |-> x \in subs, sub |-> x]
GNext == (GWrite \/ GSub) /\ UNCHANGED <<busy, heard, ops, writes>>
GSpec == GInit /\ [][GNext]_<<vars, last>>
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
