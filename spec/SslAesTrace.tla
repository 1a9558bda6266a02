---------------------------- MODULE SslAesTrace ----------------------------
EXTENDS SslAes, TraceLib
TraceInit == TLInit /\ SInit(Tr.fam, Tr.cred)
TraceNext ==
  \/ IsEvent("call") /\ Call(Ev.r, Ev.retry, Ev.t)
  \/ IsEvent("h1") /\ H1(Ev.h, Ev.who, Ev.t)
  \/ IsEvent("h1r") /\ (CASE Ev.k = "nonce" -> H1Nonce(Ev.c, Ev.t)
                          [] Ev.k \in {"less", "lessbad"} -> H1Less(Ev.k, Ev.t)
                          [] Ev.k \in {"blocked", "other"} -> H1Other(Ev.k, Ev.t)
                          [] OTHER -> H1Bad(Ev.k, Ev.t))
  \/ IsEvent("less") /\ Less(Ev.who, Ev.pw, Ev.t)
  \/ IsEvent("lessr") /\ (CASE Ev.k = "ok" -> LessOk(Ev.n, Ev.t)
                            [] Ev.k = "refused" -> LessRefused(Ev.t)
                            [] OTHER -> LessBad(Ev.k, Ev.t))
  \/ IsEvent("h2") /\ H2(Ev.who, Ev.h, Ev.proof, Ev.t)
  \/ IsEvent("h2r") /\ (IF Ev.k = "ok" THEN H2Ok(Ev.n, Ev.t) ELSE H2Bad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("req") /\ Req(Ev.r, Ev.mode, Ev.n, Ev.key, Ev.off, Ev.tag, Ev.t)
  \/ IsEvent("reqr") /\ (IF Ev.k = "ok" THEN ReqOk(Ev.tok, Ev.t) ELSE ReqBad(Ev.k, Ev.c, Ev.t))
  \/ IsEvent("ok") /\ Ok(Ev.tok, Ev.t)
  \/ IsEvent("err") /\ Err(Ev.k, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.t)
  \/ IsEvent("cancelled") /\ Cancelled(Ev.t)
  \/ IsEvent("close") /\ Close(Ev.t)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED svars
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
=============================================================================
