------------------------------ MODULE SslAesGen ------------------------------
EXTENDS SslAesMC, TLC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = [cred |-> cred, retry |-> 0, h1 |-> <<>>, less |-> <<>>, h2 |-> <<>>, req |-> <<>>]
H(f, k, c) == hist' = [hist EXCEPT ![f] = Append(@, [k |-> k, c |-> c])]
Three == {"conn", "timeout", "http"}
GNext ==
  \/ MCall /\ hist' = [hist EXCEPT !.retry = retry']
  \/ (MH1 \/ MLess \/ MH2 \/ MReq \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ \E p \in {"own", "def", "wrong"} : H1Nonce(p, clock) /\ U /\ H("h1", "nonce", p)
  \/ \E k \in {"less", "lessbad"} : H1Less(k, clock) /\ U /\ H("h1", k, "-")
  \/ \E k \in {"blocked", "other"} : H1Other(k, clock) /\ U /\ H("h1", k, "-")
  \/ \E k \in {"conn", "http"} : H1Bad(k, clock) /\ U /\ H("h1", k, "-")
  \/ MLessOk /\ H("less", "ok", "-")
  \/ MLessRefused /\ H("less", "refused", "-")
  \/ \E k \in {"conn", "http"} : LessBad(k, clock) /\ U /\ H("less", k, "-")
  \/ MH2Ok /\ H("h2", "ok", "-")
  \/ \E k \in {"conn", "timeout"} : H2Bad(k, "-", clock) /\ U /\ H("h2", k, "-")
  \/ \E c \in Codes : H2Bad("outer", c, clock) /\ U /\ H("h2", "outer", c)
  \/ MReqOk /\ H("req", "ok", "-")
  \/ \E k \in Three \cup {"garbage", "http500"} : ReqBad(k, "-", clock) /\ U /\ H("req", k, "-")
  \/ \E c \in Codes, k \in {"inner", "outer"} : ReqBad(k, c, clock) /\ U /\ H("req", k, c)
GSpec == GInit /\ [][GNext]_gv
Emit == (phase = "idle" /\ nreq = MaxReq) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
