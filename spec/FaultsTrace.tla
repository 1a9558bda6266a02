----------------------------- MODULE FaultsTrace -----------------------------
EXTENDS Faults, TraceLib
TraceInit == TLInit /\ FInit(Tr.fam, Tr.lump)
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.r, Ev.retry, Ev.t)
  \/ IsEvent("post") /\ Post(Ev.t)
  \/ IsEvent("resp") /\ Resp(Ev.k, Ev.t)
  \/ IsEvent("ok") /\ Ok(Ev.tok, Ev.good, Ev.t)
  \/ IsEvent("err") /\ Err(Ev.k, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.t)
  \/ IsEvent("cancelled") /\ Cancelled(Ev.t)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED fvars
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, tid, l>>
=============================================================================
