------------------------------ MODULE OnSinceGen ------------------------------
EXTENDS OnSinceMC, Json
CONSTANTS MaxN
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = <<>>
GNext == /\ Len(hist) < MaxN /\ MNext
         /\ hist' = Append(hist, [a |-> last', j |-> IF last' \in {"poll", "fail"} /\ since # Off THEN (CHOOSE x \in -J..J : Raw(x) \in cur'[1]) ELSE 0,
                                  d |-> IF last' = "clock" THEN off' ELSE 0])
GSpec == GInit /\ [][GNext]_gv
Emit == Len(hist) = MaxN => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
