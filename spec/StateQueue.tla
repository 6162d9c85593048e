----------------------------- MODULE StateQueue -----------------------------
(* fair::mq::StateQueue: states are pushed, consumers wait in different ways.
   A consumer is a record [k, s]: k is how it waits, s the state it waits for.
   kinds: next     the next state
          timed    the next state or the end of the time
          nextor   the next state or the condition
          custom   the condition; takes the next state along if there is one
          state    everything up to the given state
          stateor  everything up to the given state, or the condition          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Consumers, MaxQ, MaxOps
Err == "ERROR"
Alphabet == {"A", "B", Err}
Kinds == {"next", "timed", "nextor", "custom", "state", "stateor"}
Idle == [k |-> "idle", s |-> ""]
VARIABLES q, flag, wait, pushed, gone, ops
vars == <<q, flag, wait, pushed, gone, ops>>
(* pushed: every state put in, in order; gone: the states taken out or cleared, in order *)

Init == q = <<>> /\ flag = FALSE /\ wait = [c \in Consumers |-> Idle] /\ pushed = <<>> /\ gone = <<>> /\ ops = 0

Op == ops < MaxOps /\ ops' = ops + 1
Push(s, f) == /\ Op /\ Len(q) < MaxQ /\ q' = Append(q, s) /\ pushed' = Append(pushed, s) /\ flag' = f /\ UNCHANGED <<wait, gone>>
Notify(f)  == Op /\ f # flag /\ flag' = f /\ UNCHANGED <<q, wait, pushed, gone>>
Clear      == Op /\ q' = <<>> /\ gone' = gone \o q /\ UNCHANGED <<flag, wait, pushed>>
Call(c, k, s) == /\ Op /\ wait[c] = Idle /\ wait' = [wait EXCEPT ![c] = [k |-> k, s |-> s]]
                 /\ UNCHANGED <<q, flag, pushed, gone>>

\* what a consumer of kind k needs to move
Ready(k) == CASE k \in {"next", "timed", "state"} -> q # <<>>
              [] k \in {"nextor", "stateor"} -> q # <<>> \/ flag
              [] k = "custom" -> flag
              [] OTHER -> FALSE
\* the consumer finds the error state at the front: it stays there, the consumer is told
Throw(c) == /\ wait[c] # Idle /\ Ready(wait[c].k) /\ q # <<>> /\ Head(q) = Err
            /\ wait' = [wait EXCEPT ![c] = Idle] /\ UNCHANGED <<q, flag, pushed, gone, ops>>
Take(c) == /\ wait[c] # Idle /\ Ready(wait[c].k) /\ q # <<>> /\ Head(q) # Err
           /\ q' = Tail(q) /\ gone' = Append(gone, Head(q))
           /\ LET fin == CASE wait[c].k = "state" -> Head(q) = wait[c].s
                           [] wait[c].k = "stateor" -> Head(q) = wait[c].s \/ flag
                           [] OTHER -> TRUE
              IN wait' = IF fin THEN [wait EXCEPT ![c] = Idle] ELSE wait
           /\ UNCHANGED <<flag, pushed, ops>>
Empty(c) == /\ wait[c] # Idle /\ q = <<>> /\ ((wait[c].k \in {"nextor", "stateor", "custom"} /\ flag) \/ wait[c].k = "timed")
            /\ wait' = [wait EXCEPT ![c] = Idle] /\ UNCHANGED <<q, flag, pushed, gone, ops>>

Serve(c) == Throw(c) \/ Take(c) \/ Empty(c)
Next == \/ \E s \in Alphabet, f \in BOOLEAN : Push(s, f)
        \/ \E f \in BOOLEAN : Notify(f)
        \/ Clear
        \/ \E c \in Consumers : Serve(c) \/ \E k \in Kinds : \E s \in (IF k \in {"state", "stateor"} THEN {"A", "B"} ELSE {""}) : Call(c, k, s)
Spec == Init /\ [][Next]_vars /\ \A c \in Consumers : WF_vars(Serve(c))

ExactlyOnceInOrder == gone \o q = pushed
\* no wait stays blocked while what it waits for is there for good
NoLostWakeUp == \A c \in Consumers : [](wait[c] # Idle => <>(wait[c] = Idle \/ ~Ready(wait[c].k)))
\* an error at the front reaches everybody unless it is cleared away
ErrorReachesAll == \A c \in Consumers : []((wait[c] # Idle /\ wait[c].k # "custom" /\ q # <<>> /\ Head(q) = Err) => <>(wait[c] = Idle \/ q = <<>> \/ Head(q) # Err))
=============================================================================
