------------------------------ MODULE EventBus ------------------------------
(* fair::mq::EventManager. A channel is an event type together with the argument
   types; each subscriber has at most one callback (a tag) per channel.
   Emissions are not atomic: they run from a begin to an end, and in between
   every callback is called by its own step. `must` are the callbacks subscribed
   during the whole emission, `may` those subscribed at some point of it.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Subs, Chans, Emitters, MaxTag, MaxEm
None == 0
VARIABLES cb, tag, em, nem
vars == <<cb, tag, em, nem>>
NoEm == [on |-> FALSE, c |-> 0, must |-> {}, may |-> {}, called |-> <<>>]

Init == /\ cb = [s \in Subs |-> [c \in Chans |-> None]] /\ tag = 0 /\ nem = 0
        /\ em = [e \in Emitters |-> NoEm]
Current(c) == {cb[s][c] : s \in Subs} \ {None}
\* an emission under way hears of a change of the callback of its channel
Changed(e, c, old, new) ==
  IF em[e].on /\ em[e].c = c THEN [em[e] EXCEPT !.must = @ \ {old}, !.may = @ \cup ({new} \ {None})] ELSE em[e]
Subscribe(s, c) == /\ tag < MaxTag /\ tag' = tag + 1
                   /\ cb' = [cb EXCEPT ![s][c] = tag + 1]
                   /\ em' = [e \in Emitters |-> Changed(e, c, cb[s][c], tag + 1)] /\ UNCHANGED nem
Unsubscribe(s, c) == /\ cb[s][c] # None /\ cb' = [cb EXCEPT ![s][c] = None]
                     /\ em' = [e \in Emitters |-> Changed(e, c, cb[s][c], None)] /\ UNCHANGED <<tag, nem>>
Begin(e, c) == /\ ~em[e].on /\ nem < MaxEm /\ nem' = nem + 1
               /\ em' = [em EXCEPT ![e] = [on |-> TRUE, c |-> c, must |-> Current(c), may |-> Current(c), called |-> <<>>]]
               /\ UNCHANGED <<cb, tag>>
Called(e) == {em[e].called[i] : i \in DOMAIN em[e].called}
\* the implementation takes a snapshot of the callbacks and calls those still connected
Call(e, t) == /\ em[e].on /\ t \in em[e].may \ Called(e)
              /\ em' = [em EXCEPT ![e].called = Append(@, t)] /\ UNCHANGED <<cb, tag, nem>>
End(e) == /\ em[e].on /\ em[e].must \subseteq Called(e) /\ em' = [em EXCEPT ![e] = NoEm] /\ UNCHANGED <<cb, tag, nem>>
Next == \/ \E s \in Subs, c \in Chans : Subscribe(s, c) \/ Unsubscribe(s, c)
        \/ \E e \in Emitters : End(e) \/ (\E c \in Chans : Begin(e, c)) \/ \E t \in 1..MaxTag : Call(e, t)
Spec == Init /\ [][Next]_vars

NoDuplicateCall == \A e \in Emitters : Cardinality(Called(e)) = Len(em[e].called)
\* what is subscribed now is reached by an emission that sees no change
Reaches == \A e \in Emitters : em[e].on => em[e].must \subseteq Current(em[e].c) /\ Current(em[e].c) \subseteq em[e].may
OneTagOneKey == \A s1, s2 \in Subs, c1, c2 \in Chans : cb[s1][c1] # None /\ cb[s1][c1] = cb[s2][c2] => s1 = s2 /\ c1 = c2
=============================================================================
