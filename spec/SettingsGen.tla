------------------------------ MODULE SettingsGen ------------------------------
EXTENDS SettingsMC, TLC, Json, Sequences
CONSTANTS Only
VARIABLES hist, s0
gv == <<mv, hist, s0>>
GInit == MInit /\ hist = <<>> /\ s0 = s /\ (Only # "" => cfg.mod = Only)
GNext == n < MaxN /\ UNCHANGED s0 /\ \E c \in Cmds : (MDo(c) \/ MReject(c)) /\ hist' = Append(hist, c)
GSpec == GInit /\ [][GNext]_gv
Emit == n = MaxN => PrintT("SCRIPT " \o ToJson([mod |-> cfg.mod, s |-> s0, cmds |-> hist]))
=============================================================================
