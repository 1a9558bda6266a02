------------------------------ MODULE TokenGen ------------------------------
EXTENDS TokenMC, TLC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = [retry |-> <<>>, login |-> <<>>, req |-> <<>>]
H(f, k, c) == hist' = [hist EXCEPT ![f] = Append(@, [k |-> k, c |-> c])]
GNext ==
  \/ MCall /\ hist' = [hist EXCEPT !.retry = Append(@, retry')]
  \/ (MLogin \/ MReq \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ MLoginOk /\ H("login", "ok", "-")
  \/ (MLoginRefused \/ MLoginRefused2) /\ H("login", "refused", "-")
  \/ \E k \in {"conn", "timeout", "http"} : LoginBad(k, "-", clock) /\ U /\ H("login", k, "-")
  \/ \E c \in Codes : LoginBad("code", c, clock) /\ U /\ H("login", "code", c)
  \/ MReqOk /\ H("req", "ok", "-")
  \/ \E k \in {"conn", "timeout", "payload"} : ReqBad(k, "-", clock) /\ U /\ H("req", k, "-")
  \/ \E c \in Codes : ReqBad("code", c, clock) /\ U /\ H("req", "code", c)
GSpec == GInit /\ [][GNext]_gv
Emit == (phase = "idle" /\ nreq = MaxReq) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
