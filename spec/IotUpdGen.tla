------------------------------ MODULE IotUpdGen ------------------------------
EXTENDS IotUpdMC, Json
CONSTANTS MaxLen
VARIABLES hist, init
gv == <<mv, hist, init>>
GInit == MInit /\ hist = <<>> /\ init = sup
\* requests are the library's choice: only how many are answered before one is lost is kept
GNext == /\ Len(hist) < MaxLen /\ MNext /\ init' = init
         /\ hist' = Append(hist, [a |-> last', sup |-> sup'])
GSpec == GInit /\ [][GNext]_gv
Emit == (Len(hist) = MaxLen \/ (n = MaxUpd /\ ph = "idle")) => PrintT("SCRIPT " \o ToJson([init |-> init, steps |-> hist]))
=============================================================================
