------------------------------ MODULE AesTrace ------------------------------
EXTENDS Aes, TraceLib
TraceInit == TLInit /\ AInit(Tr.fam)
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.r, Ev.retry, Ev.t)
  \/ IsEvent("hs") /\ Hs(Ev.h, Ev.ck, Ev.t)
  \/ IsEvent("hsr") /\ (IF Ev.k = "ok" THEN HsOk(Ev.to, Ev.hasck, Ev.t) ELSE HsBad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("login") /\ Login(Ev.who, Ev.key, Ev.ck, Ev.tk, Ev.t)
  \/ IsEvent("loginr") /\ (CASE Ev.k = "ok" -> LoginOk(Ev.n, Ev.t)
                             [] Ev.k = "refused" -> LoginRefused(Ev.t) \/ LoginRefusedAgain(Ev.t)
                             [] OTHER -> LoginBad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("req") /\ Req(Ev.r, Ev.key, Ev.ck, Ev.tk, Ev.t)
  \/ IsEvent("reqr") /\ (IF Ev.k = "ok" THEN ReqOk(Ev.tok, Ev.t) ELSE ReqBad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("ok") /\ Ok(Ev.tok, Ev.t)
  \/ IsEvent("err") /\ Err(Ev.k, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.t)
  \/ IsEvent("cancelled") /\ Cancelled(Ev.t)
  \/ IsEvent("close") /\ Close(Ev.t)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED avars
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, tid, l>>
=============================================================================
