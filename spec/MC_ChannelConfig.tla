-------------------------- MODULE MC_ChannelConfig --------------------------
(* Small instance: every document of a small size, applied once to the empty configuration and once over an earlier one.
   The properties relate the sources with each other. *)
EXTENDS ChannelConfig
Socks == UNION {[1..k -> Settings] : k \in 0..MaxSocks}
Chans == [name : Names, common : Settings, num : 0..1, socks : Socks]
Devs == [id : Ids, chans : {<<c>> : c \in Chans} \cup {<<>>}]
VARIABLES doc, id, before
MInit == /\ \E d \in Devs, e \in Devs : doc = <<d, e>>
         /\ IF doc[1].id # doc[2].id THEN TRUE ELSE IF doc[2].chans = <<>> THEN TRUE ELSE IF doc[1].chans = <<>> THEN TRUE ELSE doc[1].chans[1].name # doc[2].chans[1].name
         /\ id \in Ids /\ before = FALSE /\ conf = Empty
MNext == ~before /\ before' = TRUE /\ conf' = ApplyDoc(conf, doc, id) /\ UNCHANGED <<doc, id>>
MSpec == MInit /\ [][MNext]_<<conf, doc, id, before>>
Mine == {c \in UNION {{doc[i].chans[j] : j \in 1..Len(doc[i].chans)} : i \in {k \in 1..2 : doc[k].id = id}} : TRUE}
\* exactly the described channels, with the described number of sub-channels
RightChannels == before => /\ DOMAIN Info(conf) = {c.name : c \in Mine}
                           /\ \A c \in Mine : Info(conf)[c.name] = IF c.num > 0 THEN c.num ELSE IF c.socks = <<>> THEN 1 ELSE Len(c.socks)
\* the most specific setting counts, the default when there is none
Precedence == before => \A c \in Mine : \A i \in 1..Len(conf[c.name]) : \A f \in Fields :
  LET s == IF c.num = 0 /\ c.socks # <<>> THEN c.socks[i][f] ELSE Unset
  IN Channel(conf, c.name, i)[f] = IF s # Unset THEN s ELSE IF c.common[f] # Unset THEN c.common[f] ELSE Dflt
\* giving the same by single properties or as channel objects means the same
RECURSIVE ByProps(_, _, _, _), ByObjects(_, _, _)
ByProps(cf, n, subs, fs) == IF subs = <<>> THEN cf
  ELSE LET i == Len(cf[n]) + 1
           RECURSIVE Fill(_, _)
           Fill(x, S) == IF S = {} THEN x ELSE LET f == CHOOSE g \in S : TRUE IN Fill(SetField(x, n, i, f, Head(subs)[f]), S \ {f})
       IN ByProps(Fill(cf, fs), n, Tail(subs), fs)
ByObjects(cf, n, subs) == IF subs = <<>> THEN cf ELSE ByObjects(AddObject(cf, n, [f \in Fields |-> IF Head(subs)[f] = Dflt THEN Unset ELSE Head(subs)[f]]), n, Tail(subs))
SourcesAgree == before => \A c \in Mine : \A i \in 1..Len(conf[c.name]) :
  /\ Channel(ByProps(Empty, c.name, SubChannels(c), Fields), c.name, i) = Channel(conf, c.name, i)
  /\ Channel(ByObjects(Empty, c.name, SubChannels(c)), c.name, i) = Channel(conf, c.name, i)
\* applying the same document again changes nothing
Idempotent == before => ApplyDoc(conf, doc, id) = conf
=============================================================================
