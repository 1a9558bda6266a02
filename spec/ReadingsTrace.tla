----------------------------- MODULE ReadingsTrace -----------------------------
EXTENDS Readings, TraceLib
TraceInit == TLInit /\ RInit(Tr.n)
TraceNext ==
  \/ IsEvent("change") /\ Change(Ev.d, Ev.r)
  \/ IsEvent("poll") /\ Poll(Ev.d, Ev.long)
  \/ IsEvent("fail") /\ Ev.lib /\ PollFailed(Ev.d)
  \/ IsEvent("read") /\ Read(Ev.d, Ev.q, Ev.v)
  \/ IsEvent("ask") /\ Ask(Ev.d, Ev.q, Ev.k, Ev.v)
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, tid, l>>
=============================================================================
