------------------------------- MODULE AdminTrace -------------------------------
EXTENDS Admin, TraceLib
TraceInit == TLInit /\ AInit(Tr.kind, Tr.st)
TraceNext ==
  \/ IsEvent("cmd") /\ Do(Ev.c, Ev.a, Ev.res) /\ st' = Ev.st
  \/ IsEvent("scan") /\ Scan(Ev.res, Ev.nets)
  \/ IsEvent("other") /\ Other(Ev.st)
  \/ IsEvent("refuse") /\ Refusing(Ev.b)
  \/ IsEvent("deaf") /\ Deaf(Ev.b)
  \/ IsEvent("update") /\ Update
  \/ IsEvent("tell") /\ Tell(Ev.v)
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, tid, l>>
=============================================================================
