--------------------------- MODULE DeviceControl ---------------------------
(* The control role of PluginServices: who may request device transitions.
   dev is the device, as far as needed to see which requests reach it (a fragment of DeviceFSM). *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Clients, Waiters
None == "none"
VARIABLES ctrl,        \* client in control or None
          dev,         \* state of the device
          waiting,     \* threads waiting for the release
          waking       \* threads that were woken up and have not looked yet
vars == <<ctrl, dev, waiting, waking>>

DevStates == {"IDLE", "INITIALIZING DEVICE", "INITIALIZED"}
Transitions == {"INIT DEVICE", "COMPLETE INIT", "RESET DEVICE", "STOP"}
Accepts(d, t) == <<d, t>> \in {<<"IDLE", "INIT DEVICE">>, <<"INITIALIZING DEVICE", "COMPLETE INIT">>, <<"INITIALIZED", "RESET DEVICE">>}
After(d, t) == CASE t = "INIT DEVICE" -> "INITIALIZING DEVICE" [] t = "COMPLETE INIT" -> "INITIALIZED" [] t = "RESET DEVICE" -> "IDLE" [] OTHER -> d

\* results: [ctrl, dev, res]; res "ok" done, "refused" the device does not do that now, "denied" not in control
Free(c, who) == c = None \/ c = who
DoTake(c, d, who) == IF Free(c, who) THEN [ctrl |-> who, dev |-> d, res |-> "ok"] ELSE [ctrl |-> c, dev |-> d, res |-> "denied"]
DoSteal(c, d, who) == [ctrl |-> who, dev |-> d, res |-> "ok"]
DoRelease(c, d, who) == [ctrl |-> IF c = who THEN None ELSE c, dev |-> d, res |-> "ok"]
DoChange(c, d, who, t) == IF ~Free(c, who) THEN [ctrl |-> c, dev |-> d, res |-> "denied"]
                          ELSE IF Accepts(d, t) THEN [ctrl |-> who, dev |-> After(d, t), res |-> "ok"]
                          ELSE [ctrl |-> who, dev |-> d, res |-> "refused"]

Init == ctrl = None /\ dev = "IDLE" /\ waiting = {} /\ waking = {}
Apply(r) == ctrl' = r.ctrl /\ dev' = r.dev
Take(w) == Apply(DoTake(ctrl, dev, w)) /\ UNCHANGED <<waiting, waking>>
Steal(w) == Apply(DoSteal(ctrl, dev, w)) /\ UNCHANGED <<waiting, waking>>
Change(w, t) == Apply(DoChange(ctrl, dev, w, t)) /\ UNCHANGED <<waiting, waking>>
\* giving up control wakes up everybody who waits
Release(w) == Apply(DoRelease(ctrl, dev, w)) /\ IF ctrl = w THEN waiting' = {} /\ waking' = waking \cup waiting ELSE UNCHANGED <<waiting, waking>>
Wait(x) == x \notin waiting \cup waking /\ waking' = waking \cup {x} /\ UNCHANGED <<ctrl, dev, waiting>>
Look(x) == x \in waking /\ waking' = waking \ {x} /\ waiting' = (IF ctrl = None THEN waiting ELSE waiting \cup {x}) /\ UNCHANGED <<ctrl, dev>>
Next == (\E w \in Clients : Take(w) \/ Steal(w) \/ Release(w) \/ \E t \in Transitions : Change(w, t)) \/ \E x \in Waiters : Wait(x) \/ Look(x)
Spec == Init /\ [][Next]_vars /\ \A x \in Waiters : WF_vars(Look(x))

TypeOK == ctrl \in Clients \cup {None} /\ dev \in DevStates /\ waiting \cap waking = {}
\* the device moves only by the hand of the client in control, and control changes hands only when free, or by stealing or releasing
OnlyController == [][dev' # dev => ctrl' # None /\ ctrl \in {None, ctrl'}]_vars
NoQuietTakeover == [][ctrl' # ctrl /\ ctrl # None /\ ctrl' # None => \E w \in Clients : Steal(w)]_vars
\* nobody goes on waiting while nobody is in control
NoMissedRelease == ctrl = None => waiting = {}
=============================================================================
