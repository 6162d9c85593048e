-------------------------- MODULE StateQueue_Trace --------------------------
(* Several producers and consumers using one queue freely. Operations of
   producers take effect between their call and their return; a "quiet" event
   says that nobody has moved for long: then nobody may be able to move.       *)
EXTENDS StateQueue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prod, got      \* prod: per producer the operation under way; got: per consumer what its wait ended with
Producers == 0..3
NoOp == [op |-> "idle", arg |-> "", f |-> FALSE, done |-> FALSE]
TInit == Init /\ l = 1 /\ prod = [p \in Producers |-> NoOp] /\ got = [c \in Consumers |-> ""]
E == Trace[l]
Ev(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
TPCall == Ev("pcall") /\ prod' = [prod EXCEPT ![E.th] = [op |-> E.op, arg |-> E.arg, f |-> E.f, done |-> FALSE]]
          /\ UNCHANGED <<vars, got>>
TPRet == Ev("pret") /\ prod[E.th].done /\ prod' = [prod EXCEPT ![E.th] = NoOp] /\ UNCHANGED <<vars, got>>
TPDo(p) == /\ prod[p].op # "idle" /\ ~prod[p].done /\ UNCHANGED <<l, got, wait, pushed, gone, ops>>
           /\ prod' = [prod EXCEPT ![p].done = TRUE]
           /\ CASE prod[p].op = "push"    -> q' = Append(q, prod[p].arg) /\ UNCHANGED flag
                [] prod[p].op = "pushsig" -> q' = Append(q, prod[p].arg) /\ flag' = prod[p].f
                [] prod[p].op = "notify"  -> flag' = prod[p].f /\ UNCHANGED q
                [] prod[p].op = "clear"   -> q' = <<>> /\ UNCHANGED flag
TCCall == Ev("ccall") /\ wait[E.th] = Idle /\ got[E.th] = "" /\ wait' = [wait EXCEPT ![E.th] = [k |-> E.k, s |-> E.s]]
          /\ UNCHANGED <<q, flag, pushed, gone, ops, prod, got>>
TServe(c) ==
  /\ wait[c] # Idle /\ UNCHANGED <<l, prod, flag, pushed, gone, ops>>
  /\ \/ /\ Ready(wait[c].k) /\ q # <<>> /\ Head(q) = Err
        /\ wait' = [wait EXCEPT ![c] = Idle] /\ got' = [got EXCEPT ![c] = "throw"] /\ UNCHANGED q
     \/ /\ Ready(wait[c].k) /\ q # <<>> /\ Head(q) # Err /\ q' = Tail(q)
        /\ LET k == wait[c].k
               multi == k \in {"state", "stateor"}
               fin == k \notin {"state", "stateor"} \/ Head(q) = wait[c].s
           IN /\ wait' = IF fin THEN [wait EXCEPT ![c] = Idle] ELSE wait
              /\ got' = IF fin THEN [got EXCEPT ![c] = IF multi THEN "end" ELSE Head(q)] ELSE got
     \/ /\ q = <<>> /\ wait[c].k \in {"nextor", "stateor", "custom"} /\ flag
        /\ wait' = [wait EXCEPT ![c] = Idle] /\ got' = [got EXCEPT ![c] = IF wait[c].k = "stateor" THEN "end" ELSE "none"] /\ UNCHANGED q
     \/ \* the condition is looked at again after a state was taken
        /\ wait[c].k = "stateor" /\ flag
        /\ wait' = [wait EXCEPT ![c] = Idle] /\ got' = [got EXCEPT ![c] = "end"] /\ UNCHANGED q
TCRet == Ev("cret") /\ wait[E.th] = Idle /\ got[E.th] = E.res /\ got' = [got EXCEPT ![E.th] = ""]
         /\ UNCHANGED <<vars, prod>>
TQuiet == Ev("quiet") /\ (\A c \in Consumers : got[c] = "" /\ (wait[c] = Idle \/ ~Ready(wait[c].k))) /\ UNCHANGED <<vars, prod, got>>
TNext == TPCall \/ TPRet \/ TCCall \/ TCRet \/ TQuiet \/ (\E p \in Producers : TPDo(p)) \/ (\E c \in Consumers : TServe(c))
TraceSpec == TInit /\ [][TNext]_<<vars, l, prod, got>>
ASSUME TLCSet(1, 0)
Progress == IF l - 1 > TLCGet(1) THEN TLCSet(1, l - 1) ELSE TRUE
TraceAccepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE PrintT("OUT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
