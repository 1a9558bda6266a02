------------------------------ MODULE FirmwareGen ------------------------------
EXTENDS FirmwareMC, TLC, Json
VARIABLES hist
CONSTANTS MaxLen
gv == <<mv, hist>>
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].a
GInit == FInit /\ last = "init" /\ hist = <<>>
\* a try that is denied is recorded once; time and reports are not recorded
GNext == /\ Len(hist) < MaxLen
         /\ MNext
         /\ last' = "deny" => Last # "deny"
         /\ hist' = IF last' \in {"tick", "tell"} THEN hist
                    ELSE Append(hist, [a |-> last', s |-> IF last' = "answer" THEN seen'[Len(seen')] ELSE 0, r |-> IF last' = "check" THEN known' ELSE "", c |-> cloud'])
GSpec == GInit /\ [][GNext]_gv
Emit == Len(hist) = MaxLen => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
