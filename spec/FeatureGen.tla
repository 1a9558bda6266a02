------------------------------ MODULE FeatureGen ------------------------------
EXTENDS FeatureMC, TLC, Json
VARIABLES hist, first
gv == <<mv, hist, first>>
GInit == MInit /\ hist = <<>> /\ first = feats[1]
GNext == n < MaxN /\ n' = n + 1 /\ UNCHANGED first /\
  (\/ \E v \in Vals(feats[1]) : (Pass(1, v) \/ Refuse(1, v)) /\ hist' = Append(hist, [k |-> "set", v |-> v])
   \/ feats[1].type = "Number" /\ \E r \in Ranges : NewRange(1, r[1], r[2]) /\ hist' = Append(hist, [k |-> "range", lo |-> r[1], hi |-> r[2]])
   \/ feats[1].type = "Choice" /\ \E o \in {{}, {1}, {2, 3}, {1, 2, 3}} : NewChoices(1, o) /\ hist' = Append(hist, [k |-> "choices", opts |-> o]))
GSpec == GInit /\ [][GNext]_gv
Emit == n = MaxN => PrintT("SCRIPT " \o ToJson([feat |-> first, steps |-> hist]))
=============================================================================
