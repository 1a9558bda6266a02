------------------------------- MODULE AesGen -------------------------------
EXTENDS AesMC, TLC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = [retry |-> 0, hs |-> <<>>, login |-> <<>>, req |-> <<>>]
H(f, k, c) == hist' = [hist EXCEPT ![f] = Append(@, [k |-> k, c |-> c])]
GNext ==
  \/ MCall /\ hist' = [hist EXCEPT !.retry = retry']
  \/ (MHs \/ MLogin \/ MReq \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ MHsOk /\ H("hs", "ok", "-")
  \/ U /\ \E k \in {"conn", "timeout", "http"} : HsBad(k, "-", clock) /\ H("hs", k, "-")
  \/ U /\ \E c \in Codes : HsBad("outer", c, clock) /\ H("hs", "outer", c)
  \/ MLoginOk /\ H("login", "ok", "-")
  \/ (MLoginRefused \/ MLoginRefused2) /\ H("login", "refused", "-")
  \/ U /\ \E k \in {"conn", "timeout", "payload", "garbage"} : LoginBad(k, "-", clock) /\ H("login", k, "-")
  \/ U /\ \E c \in Codes : LoginBad("inner", c, clock) /\ H("login", "inner", c)
  \/ MReqOk /\ H("req", "ok", "-")
  \/ U /\ \E k \in {"conn", "timeout", "http", "garbage"} : ReqBad(k, "-", clock) /\ H("req", k, "-")
  \/ U /\ \E c \in Codes, k \in {"inner", "outer"} : ReqBad(k, c, clock) /\ H("req", k, c)
GSpec == GInit /\ [][GNext]_gv
Emit == (phase = "idle" /\ nreq = MaxReq) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
