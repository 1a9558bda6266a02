----------------------------- MODULE QueryTrace -----------------------------
EXTENDS Query, TraceLib
TraceInit == TLInit /\ QInit(Tr.fam)
ClassOf(ev) == IF ev.k = "code" THEN ClassOfCode(ev.code) ELSE ev.k
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.c, Ev.retry, Ev.need, Ev.t)
  \/ IsEvent("send") /\ Send(Ev.c, Ev.t)
  \/ IsEvent("answer") /\ Answer(Ev.c, Ev.tok, Ev.t)
  \/ IsEvent("fail") /\ Fail(Ev.c, ClassOf(Ev), Ev.tok, Ev.t)
  \/ IsEvent("interrupted") /\ Interrupted(Ev.c, Ev.t)
  \/ IsEvent("reset") /\ Reset(Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.c, Ev.t)
  \/ IsEvent("ok") /\ RetOk(Ev.c, Ev.toks, Ev.t)
  \/ IsEvent("err") /\ RetErr(Ev.c, Ev.k, Ev.tok, Ev.t)
  \/ IsEvent("cancelled") /\ RetCancelled(Ev.c, Ev.t)
  \/ IsEvent("end") /\ prog = <<>> /\ holder = NoCaller /\ UNCHANGED qvars
TraceSpec == TraceInit /\ [][TraceNext]_<<qvars, tid, l>>
=============================================================================
