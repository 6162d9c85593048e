--------------------------- MODULE ChannelConfig ---------------------------
(* What a channel description means, from whichever source it comes.
   The configuration of a device holds, per channel name, a sequence of sub-channels, each giving some of the settings
   (fields) a value. A channel made from it has, for each field, that value, or the documented default.
   Sources: a JSON document or a list of --channel-config arguments (both: devices, their channels with common settings and
   settings per socket), single properties, and channel objects. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Fields, Vals, Names, Ids, MaxSocks
Unset == "unset"       \* not described
Dflt == "dflt"         \* the documented default of the field
Settings == [Fields -> Vals \cup {Unset}]
VARIABLES conf         \* [Names -> Seq([Fields -> Vals \cup {Unset, Dflt}])]: what the configuration says per sub-channel
vars == <<conf>>

\* ---------------------------------------------------------------- meaning of a description
\* a channel in a description: [name, common: Settings, num: number of identical sockets or 0, socks: Seq(Settings)]
Given(common, sock) == [f \in Fields |-> IF sock[f] # Unset THEN sock[f] ELSE IF common[f] # Unset THEN common[f] ELSE Dflt]
NoSettings == [f \in Fields |-> Unset]
SubChannels(c) ==
  IF c.num > 0 THEN [i \in 1..c.num |-> Given(c.common, NoSettings)]
  ELSE IF c.socks = <<>> THEN <<Given(c.common, NoSettings)>>
  ELSE [i \in 1..Len(c.socks) |-> Given(c.common, c.socks[i])]
\* newer settings replace older ones sub-channel by sub-channel, further old sub-channels stay
Overlay(old, new) == [i \in 1..(IF Len(new) > Len(old) THEN Len(new) ELSE Len(old)) |-> IF i <= Len(new) THEN new[i] ELSE old[i]]
\* a document: sequence of [id, chans: sequence of channels]; only the device asked for counts
Wanted(doc, id) == SelectSeq(doc, LAMBDA d : d.id = id)
RECURSIVE ApplyChans(_, _), ApplyDevs(_, _)
ApplyChans(cf, cs) == IF cs = <<>> THEN cf ELSE ApplyChans([cf EXCEPT ![Head(cs).name] = Overlay(@, SubChannels(Head(cs)))], Tail(cs))
ApplyDevs(cf, ds) == IF ds = <<>> THEN cf ELSE ApplyDevs(ApplyChans(cf, Head(ds).chans), Tail(ds))
ApplyDoc(cf, doc, id) == ApplyDevs(cf, Wanted(doc, id))

\* ---------------------------------------------------------------- other sources
\* one property, of an existing sub-channel or the next one (a sub-channel comes into being with its type)
SetField(cf, n, i, f, v) == [cf EXCEPT ![n] = IF i <= Len(@) THEN [@ EXCEPT ![i][f] = v] ELSE Append(@, [NoSettings EXCEPT ![f] = v])]
\* a channel object always has a value for every setting
AddObject(cf, n, s) == [cf EXCEPT ![n] = Append(@, Given(s, NoSettings))]

\* what a channel made from the configuration has
Effective(s) == [f \in Fields |-> IF s[f] = Unset THEN Dflt ELSE s[f]]
Channel(cf, n, i) == Effective(cf[n][i])
Info(cf) == [n \in {m \in Names : cf[m] # <<>>} |-> Len(cf[n])]

Empty == [n \in Names |-> <<>>]
Init == conf = Empty
=============================================================================
