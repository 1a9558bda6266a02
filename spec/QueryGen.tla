------------------------------ MODULE QueryGen ------------------------------
(* Enumerates all single-caller behaviours of QueryMC as device scripts:     *)
(* the sequence of exchange outcomes the real protocol will be driven with.  *)
EXTENDS QueryMC, TLC, Json
VARIABLES hist, par
gvars == <<mvars, hist, par>>
GInit == MInit /\ hist = <<>> /\ par = [retry |-> 0, need |-> 0]
GCall(c) == /\ MCall(c) /\ hist' = hist /\ par' = prog'[c]
GAnswer(c) == MAnswer(c) /\ hist' = Append(hist, "answer") /\ UNCHANGED par
GFail(c) == \E k \in Classes : /\ Fail(c, k, 1, clock) /\ UNCHANGED <<left, last>>
                               /\ hist' = Append(hist, k) /\ UNCHANGED par
GOther(c) == (MSend(c) \/ MReset \/ MRetOk(c) \/ MRetErr(c)) /\ UNCHANGED <<hist, par>>
GNext == \E c \in Callers : GCall(c) \/ GAnswer(c) \/ GFail(c) \/ GOther(c)
GSpec == GInit /\ [][GNext]_gvars
Emit == (\A c \in Callers : left[c] = 0 /\ last[c].k # "none") =>
           PrintT("SCRIPT " \o ToJson([fam |-> Family, retry |-> par.retry, need |-> par.need, out |-> hist]))
=============================================================================
