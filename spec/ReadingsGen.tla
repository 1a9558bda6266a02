------------------------------ MODULE ReadingsGen ------------------------------
(* Environment scripts: which device changes, is updated, is looked at when *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN
VARIABLES hist, polled
gv == <<hist, polled>>
GInit == hist = <<>> /\ polled = {}
Step(a, d) == hist' = Append(hist, [a |-> a, d |-> d])
GNext == /\ Len(hist) < MaxN
         /\ \E d \in 1..2 : \/ Step("change", d) /\ UNCHANGED polled
                            \/ Step("poll", d) /\ polled' = polled \cup {d}
                            \/ Step("long", d) /\ polled' = polled \cup {d}
                            \/ d \in polled /\ (Step("fail", d) \/ Step("read", d)) /\ UNCHANGED polled
GSpec == GInit /\ [][GNext]_gv
Emit == Len(hist) = MaxN => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
