---------------------------- MODULE SmartUpdGen ----------------------------
EXTENDS SmartUpdMC, Json
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = <<>>
H(x) == hist' = Append(hist, x)
Errs(r) == {x \in DOMAIN r : r[x] = -1}
GNext ==
  \/ MUpdate /\ H([k |-> "update", d |-> now' - now])
  \/ U /\ \E r \in Resp(NegoMs) : NegoOk(NegoMs, r) /\ H([k |-> "ans", errs |-> Errs(r)])
  \/ MNegoFail /\ H([k |-> "fail"])
  \/ ph = "main" /\ U /\ \E r \in Resp(Wanted) : MainOk(Wanted, r) /\ H([k |-> "ans", errs |-> Errs(r)])
  \/ MMainFail /\ H([k |-> "fail"])
  \/ U /\ ph = "indiv" /\ \E t \in {n, -1} : LET x == CHOOSE x \in pend : TRUE IN Single(x, t) /\ H([k |-> "single", x |-> x, bad |-> t = -1])
  \/ (MNoQuery \/ MFinish \/ MRaise) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_gv
Emit == (ph = "idle" /\ n = MaxUpd) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
