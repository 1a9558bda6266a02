----------------------------- MODULE TokenTrace -----------------------------
EXTENDS Token, TraceLib
TraceInit == TLInit /\ TInit(Tr.fam)
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.r, Ev.retry, Ev.t)
  \/ IsEvent("login") /\ Login(Ev.who, Ev.tk, Ev.t)
  \/ IsEvent("loginr") /\ (CASE Ev.k = "ok" -> LoginOk(Ev.n, Ev.t)
                             [] Ev.k = "refused" -> LoginRefused(0, Ev.t) \/ LoginRefused(FallbackPause, Ev.t)
                                                    \/ LoginRefusedAgain(Ev.t)
                             [] OTHER -> LoginBad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("req") /\ Req(Ev.r, Ev.tk, Ev.t)
  \/ IsEvent("reqr") /\ (IF Ev.k = "ok" THEN ReqOk(Ev.tok, Ev.t) ELSE ReqBad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("ok") /\ Ok(Ev.tok, Ev.t)
  \/ IsEvent("err") /\ Err(Ev.k, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.t)
  \/ IsEvent("cancelled") /\ Cancelled(Ev.t)
  \/ IsEvent("close") /\ Close(Ev.t)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, tid, l>>
=============================================================================
