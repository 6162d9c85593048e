------------------------- MODULE ChannelConfig_Gen -------------------------
(* Random histories of one configuration: documents, properties, channel objects in any order.
   Each state has one successor, chosen at random (the seed is TLC's). *)
EXTENDS ChannelConfig, Json, TLC, Randomization
CONSTANT Steps
VARIABLES last, n
Pick(S) == RandomElement(S)
\* mostly few settings given
RSettings(p) == [f \in Fields |-> IF Pick(1..10) <= p THEN Pick(Vals) ELSE Unset]
REmptyable(p) == IF Pick(1..4) = 1 THEN NoSettings ELSE RSettings(p)
RChan(nm, cmd) ==
  LET num == IF Pick(1..3) = 1 THEN Pick(1..3) ELSE 0
      socks == IF cmd THEN [i \in 1..(IF num > 0 THEN 0 ELSE Pick(0..MaxSocks)) |-> [NoSettings EXCEPT !["address"] = Pick(Vals)]]
               ELSE [i \in 1..Pick(0..MaxSocks) |-> REmptyable(4)]
      com == REmptyable(Pick({2, 5, 10}))
  IN [name |-> nm, num |-> num, socks |-> socks, common |-> IF cmd THEN [com EXCEPT !["address"] = Unset] ELSE com]
SetToSeqs(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
RChans(cmd, avail) == LET S == Pick(SUBSET avail)
                          q == Pick(SetToSeqs(S))
                      IN [i \in 1..Len(q) |-> RChan(q[i], cmd)]
\* devices of a JSON document; at most one of them is the wanted one, or two that describe different channels
RDoc(id) ==
  LET other == [id |-> Pick(Ids \ {id}), key |-> Pick(BOOLEAN), chans |-> RChans(FALSE, Names)]
      split == Pick(SUBSET Names)
      mine == [id |-> id, key |-> Pick(BOOLEAN), chans |-> RChans(FALSE, split)]
      mine2 == [id |-> id, key |-> Pick(BOOLEAN), chans |-> RChans(FALSE, Names \ split)]
  IN Pick({<<mine>>, <<other, mine>>, <<mine, other>>, <<mine, other, mine2>>, <<other>>})
Ops == {"json", "json", "cmd", "prop", "object", "bad"}
GInit == Init /\ last = [op |-> "init"] /\ n = 0
GNext ==
  /\ n < Steps /\ n' = n + 1
  /\ \E op \in {<<"json", "json", "json", "cmd", "cmd", "cmd", "prop", "prop", "prop", "object", "object", "badjson", "badcmd">>[Pick(1..13)]} :
     \E id \in {Pick(Ids)} :
       \/ op = "json" /\ \E d \in {RDoc(id)} : conf' = ApplyDoc(conf, d, id) /\ last' = [op |-> op, id |-> id, doc |-> d]
       \/ op = "cmd" /\ \E c \in {RChans(TRUE, Names)} : conf' = ApplyChans(conf, c) /\ last' = [op |-> op, id |-> id, doc |-> <<[id |-> id, key |-> FALSE, chans |-> c]>>]
       \/ op = "prop" /\ \E nm \in {Pick(Names)} : \E i \in {Pick(1..(Len(conf[nm]) + 1))} : \E v \in {Pick(Vals)} :
            \E f \in {IF i > Len(conf[nm]) THEN "type" ELSE Pick(Fields)} :
              conf' = SetField(conf, nm, i, f, v) /\ last' = [op |-> op, name |-> nm, idx |-> i, field |-> f, val |-> v]
       \/ op = "object" /\ \E nm \in {Pick(Names)} : \E s \in {RSettings(5)} :
            conf' = AddObject(conf, nm, s) /\ last' = [op |-> op, name |-> nm, settings |-> s]
       \/ op \in {"badjson", "badcmd"} /\ \E d \in {RDoc(id)} : \E c \in {RChans(TRUE, Names)} : \E k \in {Pick(0..5)} :
            UNCHANGED conf /\ last' = [op |-> op, id |-> id, kind |-> k, doc |-> IF op = "badjson" THEN d ELSE <<[id |-> id, key |-> FALSE, chans |-> c]>>]
GSpec == GInit /\ [][GNext]_<<vars, last, n>>
Emit == PrintT("EDGE " \o ToJson([n |-> n', a |-> last', t |-> conf']))
=============================================================================
