--------------------------- MODULE SmartUpdTrace ---------------------------
EXTENDS SmartUpd, TraceLib
Table == [i \in 1..Len(Tr.mods) |-> [Tr.mods[i] EXCEPT !.ms = ToSet(@), !.opt = ToSet(@)]]
TraceInit == TLInit /\ UInit(Table, Tr.child, Tr.cam)
\* r: sequence of [m, tok]
Resp(r) == [x \in {r[i].m : i \in 1..Len(r)} |-> (CHOOSE i \in 1..Len(r) : r[i].m = x)]
Toks(r) == [x \in {r[i].m : i \in 1..Len(r)} |-> r[Resp(r)[x]].tok]
\* data: what reading each module gave after the update
Seen == /\ Len(Ev.data) = Len(mt)
        /\ \A i \in M : LET d == Ev.data[i] IN
             /\ d.disabled = (ecnt'[i] >= DisableAt)
             /\ d.broken \in {2, IF ecnt'[i] > 0 THEN 1 ELSE 0}
             /\ IF DataOk(i, st') THEN d.k = "ok" /\ d.feats /\ {<<d.toks[j].m, d.toks[j].tok>> : j \in 1..Len(d.toks)} = Data(i, st')
                ELSE d.k = "err"
TraceNext ==
  \/ IsEvent("update") /\ Update(Ev.t)
  \/ IsEvent("q") /\ ph = "nego" /\ (IF Ev.fail THEN ToSet(Ev.ms) = NegoMs /\ NegoFail ELSE NegoOk(ToSet(Ev.ms), Toks(Ev.res)))
  \/ IsEvent("q") /\ ph = "main" /\ (IF Ev.fail THEN MainFail(ToSet(Ev.ms)) ELSE MainOk(ToSet(Ev.ms), Toks(Ev.res)))
  \/ IsEvent("q") /\ ph = "indiv" /\ Len(Ev.ms) = 1 /\ Single(Ev.ms[1], IF Ev.fail THEN -1 ELSE Ev.res[1].tok)
  \/ Silent /\ NoQuery
  \/ IsEvent("ok") /\ Finish /\ Seen /\ (child \/ Ev.info = (IF first THEN st'[Info] ELSE ans[Info]))
  \/ IsEvent("err") /\ Ev.lib /\ Raise
  \/ IsEvent("touch") /\ \E m \in M : mt[m].n = Ev.n /\ Touch(m)
  \/ IsEvent("end") /\ ph = "idle" /\ UNCHANGED uvars
TraceSpec == TraceInit /\ [][TraceNext]_<<uvars, tid, l>>
=============================================================================
