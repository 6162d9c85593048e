----------------------------- MODULE DeviceLife -----------------------------
(* The life of a device: what each request does to it, which hooks of the user
   run during it, when channels exist and with which configuration, and what
   becomes of it when something fails. The transitions refine DeviceFSM.tla.
   Every step is one request and everything that follows from it.              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Configs
VARIABLES s,     \* state in which the device rests
          conf,  \* configuration that is set
          chan,  \* configuration the channels were made from, or None
          hist   \* hooks that ran since the device was fresh or reset (history)
vars == <<s, conf, chan, hist>>
None == 99
\* rest state, request -> [via: working state passed through, hooks, to]
Work(q, r) ==
  CASE q = "IDLE" /\ r = "INIT DEVICE" -> [via |-> <<>>, hooks |-> <<>>, to |-> "INITIALIZING DEVICE"]
    [] q = "INITIALIZING DEVICE" /\ r = "COMPLETE INIT" -> [via |-> <<>>, hooks |-> <<"Init">>, to |-> "INITIALIZED"]
    [] q = "INITIALIZED" /\ r = "BIND" -> [via |-> <<"BINDING">>, hooks |-> <<"Bind">>, to |-> "BOUND"]
    [] q = "BOUND" /\ r = "CONNECT" -> [via |-> <<"CONNECTING">>, hooks |-> <<"Connect">>, to |-> "DEVICE READY"]
    [] q = "DEVICE READY" /\ r = "INIT TASK" -> [via |-> <<"INITIALIZING TASK">>, hooks |-> <<"InitTask">>, to |-> "READY"]
    [] q = "READY" /\ r = "RUN" -> [via |-> <<"RUNNING">>, hooks |-> <<"PreRun", "ConditionalRun", "Run", "PostRun">>, to |-> "READY"]
    [] q = "READY" /\ r = "RESET TASK" -> [via |-> <<"RESETTING TASK">>, hooks |-> <<"ResetTask">>, to |-> "DEVICE READY"]
    [] q \in {"INITIALIZED", "BOUND", "DEVICE READY"} /\ r = "RESET DEVICE" -> [via |-> <<"RESETTING DEVICE">>, hooks |-> <<"Reset">>, to |-> "IDLE"]
    [] q = "IDLE" /\ r = "END" -> [via |-> <<>>, hooks |-> <<>>, to |-> "EXITING"]
    [] OTHER -> [via |-> <<>>, hooks |-> <<>>, to |-> "none"]
Requests == {"INIT DEVICE", "COMPLETE INIT", "BIND", "CONNECT", "INIT TASK", "RUN", "RESET TASK", "RESET DEVICE", "END"}
Terminal == {"ERROR", "EXITING"}
Init == s = "IDLE" /\ conf \in Configs /\ chan = None /\ hist = <<>>
\* a request that runs its course
Go(r) == LET w == Work(s, r) IN
  /\ w.to # "none" /\ s' = w.to /\ UNCHANGED conf
  /\ chan' = IF r = "COMPLETE INIT" THEN conf ELSE IF r = "RESET DEVICE" THEN None ELSE chan
  /\ hist' = IF r = "RESET DEVICE" THEN <<>> ELSE hist \o w.hooks
\* a hook of it, or somebody told of a state, fails: nothing but ERROR afterwards
Fail(r) == LET w == Work(s, r) IN
  /\ w.to # "none" /\ s' = "ERROR" /\ UNCHANGED conf
  /\ chan' \in {chan, IF r = "COMPLETE INIT" THEN conf ELSE chan}
  /\ \E n \in 0..Len(w.hooks) : hist' = hist \o SubSeq(w.hooks, 1, n)
Report == s \notin Terminal /\ s' = "ERROR" /\ UNCHANGED <<conf, chan, hist>>
Configure(c) == s \notin Terminal /\ conf' = c /\ UNCHANGED <<s, chan, hist>>
Next == (\E r \in Requests : Go(r) \/ Fail(r)) \/ Report \/ \E c \in Configs : Configure(c)
Bound == Len(hist) < 14
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- properties *)
HasChannels == chan # None
ChannelsInTime == (s \in {"IDLE", "INITIALIZING DEVICE", "EXITING"} => ~HasChannels)
                  /\ (s \in {"INITIALIZED", "BOUND", "DEVICE READY", "READY"} => HasChannels)
Count(h) == Cardinality({i \in DOMAIN hist : hist[i] = h})
\* task and run hooks only after all of the initialisation, each of that exactly once per life
Ordered == /\ \A h \in {"Init", "Bind", "Connect"} : Count(h) <= 1
           /\ (Count("Bind") > 0 => Count("Init") = 1) /\ (Count("Connect") > 0 => Count("Bind") = 1)
           /\ \A i \in DOMAIN hist : hist[i] \in {"InitTask", "ResetTask", "PreRun"} => \E j \in 1..i : hist[j] = "Connect"
           /\ Count("InitTask") - Count("ResetTask") \in {0, 1}
           /\ (s = "READY" => Count("InitTask") = Count("ResetTask") + 1)
ErrorIsFinal == [][(s \in Terminal) => (s' = s /\ hist' = hist)]_vars
ConfigSticks == [][(chan # None /\ chan' # None) => chan' = chan]_vars
=============================================================================
