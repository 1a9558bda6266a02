----------------------------- MODULE ConnectGen -----------------------------
EXTENDS ConnectMC, Json
\* every assignment of outcomes to the kinds
GInit == MInit
GNext == UNCHANGED mv
GSpec == GInit /\ [][GNext]_mv
Emit == PrintT("SCRIPT " \o ToJson([fate |-> [i \in 1..N |-> fate[<<i>>]], cb |-> cb]))
=============================================================================
