---------------------------- MODULE XorConnTrace ----------------------------
EXTENDS XorConn, TraceLib
TraceInit == TLInit /\ XInit
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.r, Ev.retry, Ev.t)
  \/ IsEvent("open") /\ Open(Ev.conn, Ev.t)
  \/ IsEvent("openok") /\ OpenOk(Ev.conn, Ev.t)
  \/ IsEvent("openfail") /\ OpenFail(Ev.k, Ev.t)
  \/ IsEvent("openaborted") /\ OpenAborted(Ev.t)
  \/ IsEvent("write") /\ Write(Ev.conn, Ev.r, Ev.t)
  \/ IsEvent("deliver") /\ Deliver(Ev.conn, Ev.r, Ev.tok, Ev.t)
  \/ IsEvent("break") /\ Break(Ev.conn, Ev.t)
  \/ IsEvent("close") /\ Close(Ev.conn, Ev.t)
  \/ IsEvent("ok") /\ Ok(Ev.tok, Ev.t)
  \/ IsEvent("err") /\ Err(Ev.k, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.t)
  \/ IsEvent("cancelled") /\ Cancelled(Ev.t)
  \/ IsEvent("closecall") /\ CloseCall(Ev.t)
  \/ IsEvent("closeret") /\ CloseRet(Ev.t)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED xvars
TraceSpec == TraceInit /\ [][TraceNext]_<<xvars, tid, l>>
=============================================================================
