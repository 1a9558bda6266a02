---------------------------- MODULE DiscoverTrace ----------------------------
EXTENDS Discover, TraceLib
TraceInit == TLInit /\ DInit(Tr.cfg)
Pairs(s) == {<<s[i].h, s[i].cls>> : i \in 1..Len(s)}
TraceNext ==
  \/ IsEvent("send") /\ Ev.good /\ Send(Ev.p, Ev.t)
  \/ IsEvent("recv") /\ Recv(Ev.h, Ev.p, Ev.k, Ev.cls, Ev.raw, Ev.t)
  \/ IsEvent("raw") /\ Raw(Ev.h, Ev.t)
  \/ IsEvent("cb") /\ Ev.good /\ (Cb(Ev.h, Ev.k, Ev.t) \/ (Ev.k = "unsup" /\ Ev.h = cfg.target /\ UnsupCb(Ev.t)))
  \/ IsEvent("cbend") /\ (CbEnd(Ev.h, Ev.t) \/ (Ev.h = cfg.target /\ UnsupCbEnd(Ev.t)))
  \/ IsEvent("close") /\ (Over(Ev.t) \/ Ev.cancelled) /\ Close(Ev.t)
     \* it is over as soon as the last of these happened
     /\ (Ev.cancelled \/ Ev.t = stop \/ Ev.t = now)
  \/ IsEvent("ret") /\ Len(Ev.devs) = Cardinality(Pairs(Ev.devs)) /\ Ev.good /\ Ret(Ev.k, Pairs(Ev.devs), Ev.t)
  \/ IsEvent("cancelled") /\ Ev.good /\ Cancelled(Ev.t)
  \/ IsEvent("end") /\ ph = "done" /\ UNCHANGED dvars
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, tid, l>>
=============================================================================
