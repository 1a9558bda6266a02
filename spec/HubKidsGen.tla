----------------------------- MODULE HubKidsGen -----------------------------
EXTENDS HubKidsMC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = <<>>
H(x) == hist' = Append(hist, x)
GNext == \/ MBegin /\ H([k |-> "update"])
         \/ MList /\ H([k |-> "list", kids |-> lst'])
         \/ MListErr /\ H([k |-> "listerr"])
         \/ MComps /\ H([k |-> "comps", c |-> cps'])
         \/ MCompsErr /\ H([k |-> "compserr"])
         \/ MKidFails /\ H([k |-> "kidfail", ids |-> failed'])
         \/ MOk /\ UNCHANGED hist
         \/ MFails /\ H([k |-> "fails"])
GSpec == GInit /\ [][GNext]_gv
Emit == (ph = "idle" /\ n = MaxUpd) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
