------------------------- MODULE RegionEvents_Trace -------------------------
(* Regions created and destroyed freely by several threads while subscriptions
   come and go, recorded and checked. At quiet points everything has been heard. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT Polling
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg, ids, st, made, destr, lists
tvars == <<l, reg, ids, st, made, destr, lists>>
(* reg: number -> [s: state, o: session]; st: subscription -> [s: on/off, o: session, from: what was gone when it began];
   made/destr: subscription -> numbers heard of; lists: listing under way -> [must, mustnot]                           *)
TInit == l = 1 /\ reg = <<>> /\ ids = {} /\ st = <<>> /\ made = <<>> /\ destr = <<>> /\ lists = <<>>
E == Trace[l]
On(x) == l <= Len(Trace) /\ E.e = x /\ l' = l + 1
Put(f, k, v) == (k :> v) @@ f
Live(o) == {r \in DOMAIN reg : reg[r].o = o /\ reg[r].s = "live"}
Gone(o) == {r \in DOMAIN reg : reg[r].o = o /\ reg[r].s = "gone"}
TCreating == On("creating") /\ E.r \notin DOMAIN reg /\ reg' = Put(reg, E.r, [s |-> "creating", o |-> E.o, t |-> l]) /\ UNCHANGED <<ids, st, made, destr, lists>>
TCreated == /\ On("created") /\ reg[E.r].s = "creating" /\ <<E.o, E.id>> \notin ids /\ ids' = ids \cup {<<E.o, E.id>>}
            /\ reg' = [reg EXCEPT ![E.r].s = "live"] /\ UNCHANGED <<st, made, destr, lists>>
TDestroying == On("destroying") /\ reg[E.r].s = "live" /\ reg' = [reg EXCEPT ![E.r].s = "destroying"] /\ UNCHANGED <<ids, st, made, destr>>
               /\ lists' = [k \in DOMAIN lists |-> [lists[k] EXCEPT !.must = @ \ {E.r}]]
TDestroyed == On("destroyed") /\ reg[E.r].s = "destroying" /\ reg' = [reg EXCEPT ![E.r].s = "gone"] /\ UNCHANGED <<ids, st, made, destr, lists>>
TSub == /\ On("sub") /\ E.k \notin DOMAIN st /\ st' = Put(st, E.k, [s |-> "on", o |-> E.o, from |-> Gone(E.o), t |-> 0])
        /\ made' = Put(made, E.k, {}) /\ destr' = Put(destr, E.k, {}) /\ UNCHANGED <<reg, ids, lists>>
\* the subscription is in place: everything created from now on is heard (unless it is polled for)
TSubbed == On("subbed") /\ st' = [st EXCEPT ![E.k].t = l] /\ UNCHANGED <<reg, ids, made, destr, lists>>
TUnsub == On("unsub") /\ st[E.k].s = "on" /\ st' = [st EXCEPT ![E.k].s = "off"] /\ UNCHANGED <<reg, ids, made, destr, lists>>
THeardC == /\ On("heardc") /\ E.k \in DOMAIN st /\ st[E.k].s = "on" /\ E.r \in DOMAIN reg /\ reg[E.r].o = st[E.k].o
           /\ E.r \notin made[E.k] /\ E.r \notin st[E.k].from /\ E.bad = ""
           /\ made' = [made EXCEPT ![E.k] = @ \cup {E.r}] /\ UNCHANGED <<reg, ids, st, destr, lists>>
THeardD == /\ On("heardd") /\ E.k \in DOMAIN st /\ st[E.k].s = "on" /\ E.r \in made[E.k] /\ E.r \notin destr[E.k] /\ reg[E.r].s \in {"destroying", "gone"} /\ E.bad = ""
           /\ destr' = [destr EXCEPT ![E.k] = @ \cup {E.r}] /\ UNCHANGED <<reg, ids, st, made, lists>>
TList == On("list") /\ lists' = Put(lists, E.k, [must |-> Live(E.o), not |-> Gone(E.o), o |-> E.o]) /\ UNCHANGED <<reg, ids, st, made, destr>>
TListed == /\ On("listed") /\ LET s == {E.rs[i] : i \in DOMAIN E.rs} IN
              /\ Cardinality(s) = Len(E.rs) /\ lists[E.k].must \subseteq s /\ s \cap lists[E.k].not = {} /\ \A r \in s : r \in DOMAIN reg /\ reg[r].o = lists[E.k].o
           /\ lists' = [k \in DOMAIN lists \ {E.k} |-> lists[k]] /\ UNCHANGED <<reg, ids, st, made, destr>>
\* nothing has been created or destroyed for a while
TQuiet == /\ On("quiet") /\ UNCHANGED <<reg, ids, st, made, destr, lists>>
          /\ \A k \in DOMAIN st : st[k].s = "on" =>
               /\ Live(st[k].o) \subseteq made[k]
               /\ (made[k] \cap Gone(st[k].o)) = destr[k]
               /\ (~Polling => {r \in Gone(st[k].o) : st[k].t > 0 /\ reg[r].t > st[k].t} \subseteq made[k])
TEnd == On("end") /\ UNCHANGED <<reg, ids, st, made, destr, lists>>
TNext == TCreating \/ TCreated \/ TDestroying \/ TDestroyed \/ TSub \/ TSubbed \/ TUnsub \/ THeardC \/ THeardD \/ TList \/ TListed \/ TQuiet \/ TEnd
TraceSpec == TInit /\ [][TNext]_tvars
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
