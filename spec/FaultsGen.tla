------------------------------ MODULE FaultsGen ------------------------------
EXTENDS FaultsMC, TLC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ lump = FALSE /\ hist = [retry |-> <<>>, out |-> <<>>]
GNext ==
  \/ MCall /\ hist' = [hist EXCEPT !.retry = Append(@, retry')]
  \/ (MPost \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ MResp /\ hist' = [hist EXCEPT !.out = Append(@, last')]
GSpec == GInit /\ [][GNext]_gv
Emit == (phase = "idle" /\ nreq = MaxReq) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
