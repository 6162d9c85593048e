--------------------------- MODULE DeviceLife_Gen ---------------------------
(* Replay grain of DeviceLife: with the ways a run can go, the places where
   something can fail, and requests that hit a device blocked in a transfer.   *)
EXTENDS DeviceLife, Json, TLC
CONSTANTS Kinds, Faults
VARIABLES blk, last
\* blk: what the device is blocked in (while its working state lasts), or ""
GView == [s |-> s, conf |-> conf, chan |-> chan, blk |-> blk]
gvars == <<s, conf, chan, hist, blk, last>>
GInit == Init /\ conf = 0 /\ blk = "" /\ last = [op |-> "init"]
Lab(op, how, at, ann, hooks, opt, end) == last' = [op |-> op, how |-> how, at |-> at, ann |-> ann, hooks |-> hooks, opt |-> opt, end |-> end]
Ann(w) == w.via \o <<w.to>>
EndOf(x) == IF x = "EXITING" THEN "return" ELSE IF x = "ERROR" THEN "exception" ELSE ""
Upto(q, x) == SubSeq(q, 1, CHOOSE i \in DOMAIN q : q[i] = x)
After(q, x) == SubSeq(q, (CHOOSE i \in DOMAIN q : q[i] = x) + 1, Len(q))
\* how a complete run can go: Run returns, ConditionalRun repeats, a stop request arrives at once or as it ends
Ways(r) == IF r = "RUN" THEN {"ret", "cond", "early", "late"} ELSE {""}
GGo(r) == /\ blk = "" /\ Go(r) /\ UNCHANGED blk
          /\ \E how \in Ways(r) : LET w == Work(s, r) IN
               Lab(r, how, "", Ann(w), CASE how = "early" -> <<"PreRun", "Run", "PostRun">>
                                               [] how = "cond" -> <<"PreRun", "ConditionalRun", "ConditionalRun", "ConditionalRun", "Run", "PostRun">>
                                               [] OTHER -> w.hooks, IF how = "early" THEN <<"ConditionalRun">> ELSE <<>>, EndOf(w.to))
\* ways to fail in hook h: throw an exception of the standard or another one, report the error, or both
Kaputt == {"throw", "throwint", "report", "reportthrow"}
\* hooks that may block in a transfer or an interruptible wait
Blockable == {<<"RUN", "Run">>, <<"RUN", "PreRun">>, <<"INIT TASK", "InitTask">>, <<"RESET TASK", "ResetTask">>, <<"CONNECT", "Connect">>}
GFail(r) ==
  LET w == Work(s, r) IN
  /\ Faults /\ blk = "" /\ w.to # "none" /\ s' = "ERROR" /\ UNCHANGED <<conf, hist, blk>>
  /\ chan' = chan
  /\ \/ \E h \in {w.hooks[i] : i \in DOMAIN w.hooks}, how \in Kaputt :
          Lab(r, how, h, w.via \o <<"ERROR">>, Upto(w.hooks, h), IF how = "report" THEN After(w.hooks, h) ELSE <<>>, "exception")
     \* somebody else reports an error as soon as the working state is entered, while its hook blocks
     \/ \E b \in Blockable : b[1] = r /\ Lab(r, "spinreport", b[2], w.via \o <<"ERROR">>, <<>>, w.hooks, "exception")
     \/ \E x \in {Ann(w)[i] : i \in DOMAIN Ann(w)}, how \in {"subthrow", "subreport"} :
          /\ x # "EXITING" /\ (how = "subreport" => x \notin {"IDLE"})
          /\ LET first == w.via # <<>> /\ x = w.via[1] IN
             IF how = "subthrow" \/ ~first
             THEN Lab(r, how, x, Upto(Ann(w), x) \o <<"ERROR">>, IF first THEN <<>> ELSE w.hooks, IF x = "INITIALIZING DEVICE" THEN <<"Init">> ELSE <<>>, "exception")
             ELSE Lab(r, how, x, <<x, "ERROR">>, <<>>, w.hooks, "exception")
GBlock(r, h, k) ==
  LET w == Work(s, r) IN
  /\ blk = "" /\ w.to # "none" /\ (k = "alloc" => chan = 1)
  /\ blk' = k \o ":" \o h /\ s' = w.via[1] /\ UNCHANGED <<conf, chan, hist>>
  /\ Lab(r, "block", k \o ":" \o h, w.via, Upto(w.hooks, h), <<>>, "")
RestOf(h) == CASE h = "Run" -> <<"PostRun">> [] h = "PreRun" -> <<"Run", "PostRun">> [] OTHER -> <<>>
BlkHook == IF \E k \in Kinds : blk = k \o ":Run" THEN "Run" ELSE IF \E k \in Kinds : blk = k \o ":PreRun" THEN "PreRun" ELSE "other"
GStop == /\ blk # "" /\ s = "RUNNING" /\ s' = "READY" /\ blk' = "" /\ UNCHANGED <<conf, chan, hist>>
         /\ Lab("STOP", "", "", <<"READY">>, RestOf(BlkHook), <<>>, "")
GReport == /\ Faults /\ s \notin Terminal /\ s' = "ERROR" /\ blk' = "" /\ UNCHANGED <<conf, chan, hist>>
           /\ Lab("ERROR FOUND", "", "", <<"ERROR">>, <<>>, IF blk # "" THEN RestOf(BlkHook) ELSE IF s = "INITIALIZING DEVICE" THEN <<"Init">> ELSE <<>>, "exception")
\* a transition the device does not have in this state
GRefused == s \notin {"EXITING"} /\ UNCHANGED <<s, conf, chan, hist, blk>> /\ Lab("refused", "", "", <<>>, <<>>, <<>>, EndOf(s))
GConf(c) == c # conf /\ Configure(c) /\ UNCHANGED blk /\ Lab("conf", "", ToString(c), <<>>, <<>>, <<>>, "")
\* another device takes the place of one that ended
GNew == s \in Terminal /\ s' = "IDLE" /\ chan' = None /\ blk' = "" /\ UNCHANGED <<conf, hist>> /\ Lab("new", "", "", <<>>, <<>>, <<>>, "")
GNext == \/ \E r \in Requests : GGo(r) \/ GFail(r) \/ \E b \in Blockable, k \in Kinds : b[1] = r /\ GBlock(r, b[2], k)
         \/ GStop \/ GReport \/ GRefused \/ GNew \/ \E c \in Configs : GConf(c)
GSpec == GInit /\ [][GNext]_gvars
NoHist == hist' = <<>>
Emit == PrintT("EDGE " \o ToJson([f |-> GView, a |-> last', t |-> GView']))
=============================================================================
