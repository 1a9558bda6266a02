----------------------------- MODULE PairingTrace -----------------------------
EXTENDS Pairing, TraceLib
S(x) == {x[i] : i \in 1..Len(x)}
TraceInit == TLInit /\ PInit(S(Tr.init))
Sup == S(Tr.sup)
Shown == S(Tr.shown)
TraceNext ==
  \/ More /\ Ev.t > now /\ Tick(Ev.t) /\ Silent
  \/ More /\ Ev.t = now /\
     ( \/ IsEvent("near") /\ Near(S(Ev.ids))
       \/ IsEvent("elsewhere") /\ Elsewhere(S(Ev.ids))
       \/ IsEvent("pair") /\ Pair(Ev.w)
       \/ IsEvent("scan") /\ Scan(Ev.ok)
       \* every supported category is asked for
       \/ IsEvent("ask") /\ Ask(Ev.ok, Sup) /\ (Ev.ok => S(Ev.ids) = found')
       \* the devices are passed on as they were detected, each once
       \/ IsEvent("add") /\ Ev.same /\ Len(Ev.ids) = Cardinality(S(Ev.ids)) /\ Add(Ev.ok, S(Ev.ids), S(Ev.acc))
       \/ IsEvent("paired") /\ Ev.same /\ Len(Ev.ids) = Cardinality(S(Ev.ids)) /\ PairEnds(S(Ev.ids), Shown)
       \/ IsEvent("failed") /\ Ev.lib /\ Failed
       \/ IsEvent("giveup") /\ GiveUp
       \/ IsEvent("unpair") /\ Unpair(Ev.id)
       \/ IsEvent("remove") /\ Len(Ev.ids) = 1 /\ Remove(Ev.ok, S(Ev.ids))
       \/ IsEvent("unpaired") /\ UnpairEnds
       \/ IsEvent("update") /\ Update
       \* the children and the categories
       \/ IsEvent("view") /\ ph = "idle" /\ Len(Ev.ids) = Cardinality(S(Ev.ids)) /\ S(Ev.ids) = known \cap Shown /\ Ev.cats /\ UNCHANGED pvars )
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, tid, l>>
=============================================================================
