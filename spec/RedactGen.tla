------------------------------ MODULE RedactGen ------------------------------
(* Shapes of answers: where among maps and lists a field sits *)
EXTENDS Redact, Json
CONSTANTS MaxD, Fams, Routes
VARIABLES s
GInit == RInit /\ s = <<>>
Steps == {"map", "list"}
\* one field: family, route, path of containers, key
GNext == s = <<>> /\ UNCHANGED rvars /\ \E f \in Fams : \E r \in Routes : \E k \in DOMAIN Secret(f), d \in 0..MaxD : \E p \in [1..d -> Steps] :
           s' = [fam |-> f, route |-> r, key |-> k, path |-> p, how |-> Secret(f)[k]]
GSpec == GInit /\ [][GNext]_<<rvars, s>>
Emit == s # <<>> => PrintT("SCRIPT " \o ToJson(s))
=============================================================================
