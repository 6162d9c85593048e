------------------------------- MODULE Config -------------------------------
(* The property store (ProgOptions, and PluginServices in front of it) and its
   notifications. A value is a record [t, v] of a type and a value of that type;
   Absent stands for a property that does not exist. The operations are pure
   functions on the store, so that generator, trace checker and model share them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Types, Vals
Absent == [t |-> "none", v |-> 0]
Values == [t : Types, v : Vals]
Store  == [Keys -> Values \cup {Absent}]
\* a multi-property write: Absent means the key is not part of it
Maps   == [Keys -> Values \cup {Absent}]

Has(s, k) == s[k] # Absent
DomOf(m) == {k \in DOMAIN m : m[k] # Absent}
Over(s, m) == [k \in DOMAIN s |-> IF m[k] # Absent THEN m[k] ELSE s[k]]
Only(k, x) == [j \in Keys |-> IF j = k THEN x ELSE Absent]

\* each write as [store, ok, told]: the new store, the result, and which <<key, value>> are announced
DoSet(s, m)    == [s |-> Over(s, m), ok |-> TRUE, told |-> {<<k, m[k]>> : k \in DomOf(m)}]
DoUpdate(s, m) == IF \A k \in DomOf(m) : Has(s, k) THEN DoSet(s, m) ELSE [s |-> s, ok |-> FALSE, told |-> {}]
DoDelete(s, k) == [s |-> [s EXCEPT ![k] = Absent], ok |-> TRUE, told |-> {}]

\* a subscription is <<subscriber, type>>, with type "str" for changes as text;
\* what a set of subscriptions hears of announced changes: <<subscription, key, value>>
Hears(subs, told) == {<<x[1], x[2], c[1], c[2]>> : x \in subs, c \in told} 
HeardBy(subs, told) == {h \in Hears(subs, told) : h[2] = "str" \/ h[2] = h[4].t}

(* ---- the model: writers work in steps (store the values under the lock, then announce) ---- *)
CONSTANTS Writers, Subscriptions, MaxOps
VARIABLES store, subs, busy, heard, ops, writes
vars == <<store, subs, busy, heard, ops, writes>>
Nothing == {}
Init == /\ store = [k \in Keys |-> Absent] /\ subs = {} /\ busy = [w \in Writers |-> Nothing]
        /\ heard = {} /\ ops = 0 /\ writes = {}
Write(w, r, n) == /\ busy[w] = Nothing /\ ops < MaxOps /\ ops' = ops + 1
                  /\ store' = r.s /\ busy' = [busy EXCEPT ![w] = {<<n, c[1], c[2]>> : c \in r.told}]
                  /\ writes' = writes \cup {<<n, c[1], c[2]>> : c \in r.told} /\ UNCHANGED <<subs, heard>>
\* heard holds <<subscription, write number, key>>: each is there once
Announce(w) == \E x \in busy[w] : /\ busy' = [busy EXCEPT ![w] = @ \ {x}]
                 /\ heard' = heard \cup {<<s, x[1], x[2]>> : s \in {y \in subs : y[2] = "str" \/ y[2] = x[3].t}}
                 /\ UNCHANGED <<store, subs, ops, writes>>
Sub(x)   == /\ ops < MaxOps /\ ops' = ops + 1 /\ x \notin subs /\ subs' = subs \cup {x} /\ UNCHANGED <<store, busy, heard, writes>>
Unsub(x) == /\ ops < MaxOps /\ ops' = ops + 1 /\ x \in subs /\ subs' = subs \ {x} /\ UNCHANGED <<store, busy, heard, writes>>
Next == \/ \E w \in Writers : Announce(w) \/ (\E m \in Maps : Write(w, DoSet(store, m), ops) \/ Write(w, DoUpdate(store, m), ops)) \/ \E k \in Keys : Write(w, DoDelete(store, k), ops)
        \/ \E x \in Subscriptions : Sub(x) \/ Unsub(x)
Spec == Init /\ [][Next]_vars
TypeOK == store \in Store
\* only writes that happened are heard of, and only by subscriptions of the type
HeardIsWritten == \A h \in heard : \E x \in writes : x[1] = h[2] /\ x[2] = h[3] /\ (h[1][2] \in {"str", x[3].t})
\* conditional updates never create a property
UpdateCreatesNothing == \A m \in Maps : DoUpdate(store, m).ok => DomOf(m) \subseteq DomOf(store)
UpdateAllOrNothing == \A m \in Maps : LET r == DoUpdate(store, m) IN (~r.ok => r.s = store /\ r.told = {}) /\ (r.ok => \A k \in DomOf(m) : r.s[k] = m[k])
=============================================================================
