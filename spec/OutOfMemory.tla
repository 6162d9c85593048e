---------------------------- MODULE OutOfMemory ----------------------------
(* Users of one shared memory of Total units allocate and free messages. A user's
   policy is the number of attempts of an allocation (0: as many as it takes).
   Between attempts the user sleeps; after each sleep an interruption is noticed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Users, Total, Sizes, MaxOps, Policy     \* Policy: [Users -> Nat]
VARIABLES held, al, intr, res, ops
vars == <<held, al, intr, res, ops>>
(* held[u]: bag of sizes as a sequence; al[u]: allocation under way [st, size, tries]; res[u]: outcome of the last one *)
Idle == [st |-> "idle", size |-> 0, tries |-> 0]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Used(_)
Used(U) == IF U = {} THEN 0 ELSE LET u == CHOOSE x \in U : TRUE IN Sum(held[u]) + Used(U \ {u})
Free == Total - Used(Users)
Init == held = [u \in Users |-> <<>>] /\ al = [u \in Users |-> Idle] /\ intr = [u \in Users |-> FALSE]
        /\ res = [u \in Users |-> [r |-> "none", tries |-> 0, free |-> 0, intr |-> FALSE]] /\ ops = 0
Op == ops < MaxOps /\ ops' = ops + 1
Call(u, n) == /\ Op /\ al[u].st = "idle" /\ al' = [al EXCEPT ![u] = [st |-> "try", size |-> n, tries |-> 0]] /\ UNCHANGED <<held, intr, res>>
Out(u, r) == al' = [al EXCEPT ![u] = Idle] /\ res' = [res EXCEPT ![u] = [r |-> r, tries |-> al[u].tries + (IF al[u].st = "try" THEN 1 ELSE 0), size |-> al[u].size, intr |-> intr[u]]]
Try(u) == /\ al[u].st = "try"
          /\ IF al[u].size > Total THEN Out(u, "refused") /\ UNCHANGED held
             ELSE IF al[u].size <= Free THEN held' = [held EXCEPT ![u] = Append(@, al[u].size)] /\ Out(u, "ok")
             ELSE IF al[u].tries + 1 = Policy[u] THEN Out(u, "refused") /\ UNCHANGED held
             ELSE al' = [al EXCEPT ![u] = [@ EXCEPT !.st = "sleep", !.tries = IF Policy[u] = 0 THEN 0 ELSE @ + 1]] /\ UNCHANGED <<held, res>>
          /\ UNCHANGED <<intr, ops>>
Awake(u) == /\ al[u].st = "sleep"
            /\ IF intr[u] THEN Out(u, "refused") ELSE al' = [al EXCEPT ![u].st = "try"] /\ UNCHANGED res
            /\ UNCHANGED <<held, intr, ops>>
Release(u) == \E i \in 1..Len(held[u]) : held' = [held EXCEPT ![u] = [j \in 1..(Len(@) - 1) |-> IF j < i THEN @[j] ELSE @[j + 1]]] /\ UNCHANGED <<al, intr, res, ops>>
Interrupt(u) == Op /\ intr' = [intr EXCEPT ![u] = ~@] /\ UNCHANGED <<held, al, res>>
Next == \E u \in Users : Try(u) \/ Awake(u) \/ Release(u) \/ Interrupt(u) \/ \E n \in Sizes : Call(u, n)
Spec == Init /\ [][Next]_vars /\ \A u \in Users : WF_vars(Try(u)) /\ WF_vars(Awake(u))

NeverTooMuch == Used(Users) <= Total
ExactlyTheAttempts == \A u \in Users : res[u].r = "refused" => (res[u].size > Total \/ res[u].tries = Policy[u] \/ res[u].intr)
NeverMore == \A u \in Users : Policy[u] > 0 => al[u].tries < Policy[u] /\ res[u].tries <= Policy[u]
NobodyElseAffected == [][\A u \in Users : held'[u] # held[u] => \A v \in Users \ {u} : held'[v] = held[v]]_vars
\* as long as it does not run out of attempts an allocation ends once there is room for good, or it is interrupted for good
EndsInTheEnd == \A u \in Users : [](al[u].st # "idle" => <>(al[u].st = "idle" \/ (Policy[u] = 0 /\ al[u].size > Free /\ ~intr[u])))
=============================================================================
