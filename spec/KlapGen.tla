------------------------------ MODULE KlapGen ------------------------------
(* All device behaviours for the first request(s) as scripts.                *)
EXTENDS KlapMC, TLC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = [retry |-> 0, hs1 |-> <<>>, hs2 |-> <<>>, req |-> <<>>]
H(f, k) == hist' = [hist EXCEPT ![f] = Append(@, k)]
GNext ==
  \/ MCall /\ hist' = [hist EXCEPT !.retry = retry']
  \/ (MHs1 \/ MHs2 \/ MReq \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ \E k \in {"own", "kasa", "blank"} : Hs1Ok(k, 1800, k # "own", clock) /\ U /\ H("hs1", k)
  \/ \E k \in PostKinds \cup {"wrong", "badlen"} : Hs1Bad(k, clock) /\ U /\ H("hs1", k)
  \/ MHs2Ok /\ H("hs2", "ok")
  \/ \E k \in PostKinds : Hs2Bad(k, clock) /\ U /\ H("hs2", k)
  \/ ReqOk(cur, clock) /\ U /\ H("req", "ok")
  \/ \E k \in PostKinds \cup {"http403", "garbage"} : ReqBad(k, clock) /\ U /\ H("req", k)
GSpec == GInit /\ [][GNext]_gv
Emit == (phase = "idle" /\ nreq = MaxReq) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
