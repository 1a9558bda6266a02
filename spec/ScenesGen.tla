------------------------------- MODULE ScenesGen -------------------------------
EXTENDS ScenesMC, TLC, Json
VARIABLES hist, start
gv == <<mv, hist, start>>
GInit == MInit /\ hist = <<>> /\ start = [cfg |-> cfg, lamp |-> lamp, eff |-> eff, rules |-> rules, slots |-> slots]
GNext == n < MaxN /\ \E c \in Cmds : (MDo(c) \/ MReject(c)) /\ hist' = Append(hist, c) /\ UNCHANGED start
GSpec == GInit /\ [][GNext]_gv
Emit == n = MaxN => PrintT("SCRIPT " \o ToJson([start |-> start, cmds |-> hist]))
=============================================================================
