----------------------------- MODULE ChildTrace -----------------------------
EXTENDS Child, TraceLib
TraceInit == TLInit /\ CInit
\* the order of the methods inside the envelope is that of the query
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.ch, Ev.ms, Ev.retry)
  \/ IsEvent("send") /\ order # <<>> /\ Send(Head(order), Ev.ch, Ev.ms)
  \/ IsEvent("envfail") /\ EnvFail(Ev.c)
  \/ IsEvent("childfail") /\ ChildFail(Ev.c)
  \/ IsEvent("ans") /\ Answer(Ev.items)
  \/ IsEvent("ok") /\ Ok(Ev.q, ToSet(Ev.res))
  \/ IsEvent("err") /\ Ev.k \in {"conn", "timeout", "retryable", "auth", "device", "kasa"} /\ Err(Ev.q, Ev.k)
  \/ IsEvent("end") /\ order = <<>> /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tid, l>>
=============================================================================
