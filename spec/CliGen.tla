-------------------------------- MODULE CliGen --------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN
VARIABLES kind, hist, rf
gv == <<kind, hist, rf>>
Every == {"on", "off", "toggle", "state", "alias", "getalias", "led", "getled", "reboot", "reset", "join", "scan", "time", "cred"}
Own == [plug |-> {"on", "toggle"}, strip |-> {"on", "off", "toggle", "alias", "state"}, istrip |-> {"on", "off", "toggle", "alias", "sched", "del", "erase"},
        bulb |-> {"bri", "getbri", "hsv", "gethsv", "temp", "preset"}, ibulb |-> {"bri", "getbri", "hsv", "gethsv", "temp", "preset", "sched", "tob", "erase"},
        iplug |-> {"sched", "del", "erase"}, vacuum |-> {"cons"}]
Odd == {"bri", "temp", "sched", "cons", "tob", "preset", "erase"}
GInit == kind \in DOMAIN Own /\ hist = <<>> /\ rf = FALSE
GNext == /\ Len(hist) < MaxN /\ UNCHANGED kind
         /\ \/ \E c \in Every : \E w \in 1..2 : hist' = Append(hist, c) /\ UNCHANGED rf
            \/ \E c \in Own[kind] : \E w \in 1..4 : hist' = Append(hist, c) /\ UNCHANGED rf
            \/ \E c \in Odd : hist' = Append(hist, c) /\ UNCHANGED rf
            \/ hist' = Append(hist, "other") /\ UNCHANGED rf
            \/ hist' = Append(hist, IF rf THEN "heal" ELSE "refuse") /\ rf' = ~rf
GSpec == GInit /\ [][GNext]_gv
Emit == Len(hist) = MaxN => PrintT("SCRIPT " \o ToJson([kind |-> kind, steps |-> hist]))
=============================================================================
