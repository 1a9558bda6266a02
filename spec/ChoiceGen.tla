----------------------------- MODULE ChoiceGen -----------------------------
EXTENDS ChoiceMC, Json
GSpec == MInit /\ [][UNCHANGED mv]_mv
Emit == PrintT("SCRIPT " \o ToJson(src))
=============================================================================
