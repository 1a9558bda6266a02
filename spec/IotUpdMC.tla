------------------------------- MODULE IotUpdMC -------------------------------
EXTENDS IotUpd
CONSTANTS Mods, MaxUpd
VARIABLES n, last, tok, sup
mv == <<uvars, n, last, tok, sup>>
\* sup: what the device supports (it may lose a module, never gain one)
Needs == {[m |-> x, c |-> "q"] : x \in Mods} \cup {Sys}
MInit == UInit /\ n = 0 /\ last = "init" /\ tok = 0 /\ sup \in SUBSET Mods
Ans(qs) == [q \in {q \in qs : q = Sys \/ q.m \in sup} |-> tok + 1]
Open == {q \in Needs : q \notin asked /\ q.m \notin drop}
MNext ==
  \/ n = 0 /\ Discovered(0) /\ last' = "disc" /\ UNCHANGED <<n, tok, sup>>
  \/ n < MaxUpd /\ Begin /\ n' = n + 1 /\ last' = "begin" /\ tok' = tok + 1 /\ UNCHANGED sup
  \/ \E qs \in SUBSET (IF met THEN Open ELSE {Sys}) : qs # {} /\
       \/ Request(qs, Ans(qs), {q.m : q \in {q \in qs : q # Sys /\ q.m \notin sup}}) /\ last' = "req" /\ UNCHANGED <<n, tok, sup>>
       \/ Lost(qs) /\ last' = "lost" /\ UNCHANGED <<n, tok, sup>>
  \/ Ok(Needs) /\ last' = "ok" /\ UNCHANGED <<n, tok, sup>>
  \/ Err /\ last' = "err" /\ UNCHANGED <<n, tok, sup>>
  \/ ph = "idle" /\ (\E s \in SUBSET sup : s # sup /\ sup' = s) /\ last' = "loses" /\ UNCHANGED <<uvars, n, tok>>
MSpec == MInit /\ [][MNext]_mv
Truthful == (last = "ok") => \A q \in Needs : (q = Sys \/ q.m \in sup) => known[q] = {tok + 1}
Dropped == [][last' = "req" => \A x \in drop : ~(\E q \in asked' \ asked : q.m = x)]_mv
OthersStay == [][last' = "ok" => \A q \in Needs : q.m \in sup => q \in DOMAIN known']_mv
FirstAlone == [][(last' = "req" /\ ~met) => asked' = {Sys}]_mv
=============================================================================
