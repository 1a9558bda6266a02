----------------------------- MODULE OnSinceTrace -----------------------------
EXTENDS OnSince, TraceLib
TraceInit == TLInit /\ OInit(Tr.n)
TraceNext ==
  \/ IsEvent("poll") /\ Poll(Ev.r)
  \/ IsEvent("fail") /\ Ev.lib /\ PollFailed(Ev.r)
  \/ IsEvent("read") /\ (IF Ev.v = Fails THEN ReadFails(Ev.i) ELSE Read(Ev.i, Ev.v))
  \/ IsEvent("whole") /\ Whole(Ev.v) /\ UNCHANGED ovars
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, tid, l>>
=============================================================================
