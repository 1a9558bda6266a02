------------------------------- MODULE AdminGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN
VARIABLES kind, hist, rf, df
gv == <<kind, hist, rf, df>>
Cmds == [smart |-> {"name", "clock", "nclock", "join", "cred", "reboot", "reset", "scan"}, cam |-> {"name", "clock", "nclock"},
         iot |-> {"name", "clock", "nclock", "join", "reboot", "reset", "scan", "delrule", "delrules", "enable", "erase"}]
GInit == kind \in DOMAIN Cmds /\ hist = <<>> /\ rf = FALSE /\ df = FALSE
GNext == /\ Len(hist) < MaxN /\ UNCHANGED kind
         /\ \/ \E c \in Cmds[kind] : hist' = Append(hist, c) /\ UNCHANGED <<rf, df>>
            \/ \E i \in 1..2 : hist' = Append(hist, "update") /\ UNCHANGED <<rf, df>>
            \/ hist' = Append(hist, "other") /\ UNCHANGED <<rf, df>>
            \/ ~df /\ hist' = Append(hist, IF rf THEN "heal" ELSE "refuse") /\ rf' = ~rf /\ UNCHANGED df
            \/ kind = "smart" /\ ~rf /\ hist' = Append(hist, IF df THEN "hear" ELSE "deaf") /\ df' = ~df /\ UNCHANGED rf
GSpec == GInit /\ [][GNext]_gv
Emit == Len(hist) = MaxN => PrintT("SCRIPT " \o ToJson([kind |-> kind, steps |-> hist]))
=============================================================================
