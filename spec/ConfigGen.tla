----------------------------- MODULE ConfigGen -----------------------------
EXTENDS ConfigMC, Json
GSpec == MInit /\ [][UNCHANGED mv]_mv
Emit == PrintT("SCRIPT " \o ToJson(c))
=============================================================================
