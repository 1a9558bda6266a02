------------------------------ MODULE PairingGen ------------------------------
EXTENDS PairingMC, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, init
gv == <<mv, hist, init>>
GInit == MInit /\ hist = <<>> /\ init = kids
\* what the harness can choose: calls, refusals, the surroundings, what the hub takes, when the caller gives up
Rec == [a |-> last', ok |-> ph' # "failed", w |-> wait', ids |-> CASE last' = "near" -> near' [] last' = "elsewhere" -> kids' [] last' = "add" -> kids' \ kids
                                                            [] last' = "unpair" -> found' [] OTHER -> {}]
GNext == /\ Len(hist) < MaxLen
         /\ MNext /\ init' = init
         /\ hist' = IF last' \in {"tick", "paired", "unpaired", "failed"} THEN hist ELSE Append(hist, Rec)
GSpec == GInit /\ [][GNext]_gv
Emit == (Len(hist) = MaxLen /\ ph = "idle") => PrintT("SCRIPT " \o ToJson([init |-> init, steps |-> hist]))
=============================================================================
