----------------------------- MODULE KlapTrace -----------------------------
EXTENDS Klap, TraceLib
TraceInit == TLInit /\ KInit(Tr.fam)
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.r, Ev.retry, Ev.t)
  \/ IsEvent("hs1") /\ Hs1(Ev.h, Ev.ck, Ev.t)
  \/ IsEvent("hs1r") /\ (IF ProofOk(Ev.k) THEN Hs1Ok(Ev.k, Ev.to, Ev.hasck, Ev.t) ELSE Hs1Bad(Ev.k, Ev.t))
  \/ IsEvent("hs2") /\ Hs2(Ev.ck, Ev.proof, Ev.t)
  \/ IsEvent("hs2r") /\ (IF Ev.k = "ok" THEN Hs2Ok(Ev.t) ELSE Hs2Bad(Ev.k, Ev.t))
  \/ IsEvent("req") /\ Req(Ev.r, Ev.key, Ev.ck, Ev.off, Ev.t)
  \/ IsEvent("reqr") /\ (IF Ev.k = "ok" THEN ReqOk(Ev.tok, Ev.t) ELSE ReqBad(Ev.k, Ev.t))
  \/ IsEvent("ok") /\ Ok(Ev.tok, Ev.t)
  \/ IsEvent("err") /\ Err(Ev.k, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.t)
  \/ IsEvent("cancelled") /\ Cancelled(Ev.t)
  \/ IsEvent("close") /\ Close(Ev.t)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED kvars
TraceSpec == TraceInit /\ [][TraceNext]_<<kvars, tid, l>>
=============================================================================
