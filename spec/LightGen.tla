------------------------------- MODULE LightGen -------------------------------
EXTENDS LightMC, TLC, Json, Sequences
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = <<>>
GNext == n < MaxN /\ \E c \in Cmds : (MDo(c) \/ MReject(c)) /\ hist' = Append(hist, c)
GSpec == GInit /\ [][GNext]_gv
Emit == n = MaxN => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, cmds |-> hist]))
=============================================================================
