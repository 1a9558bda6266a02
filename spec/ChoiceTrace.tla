---------------------------- MODULE ChoiceTrace ----------------------------
EXTENDS Choice, TraceLib
Rng(s) == {s[i] : i \in 1..Len(s)}
TraceInit == TLInit /\ cur = NoChoice /\ saved = NoP
Got == [res |-> Ev.res, cls |-> Ev.cls, p |-> Ev.p, t |-> Ev.t, c |-> Ev.c]
R == [Ev.r EXCEPT !.ets = Rng(Ev.r.ets)]
TraceNext ==
  \/ IsEvent("new") /\ NewReply(R) /\ cur' = Got
  \/ IsEvent("old") /\ LegacyReply(Ev.r) /\ cur' = Got
  \/ IsEvent("save") /\ Save
  \/ IsEvent("again") /\ Again(Ev.r) /\ cur' = Got
  \* starting from given parameters
  \/ IsEvent("given") /\ saved' = Ev.c /\ UNCHANGED cur
  \/ IsEvent("proto") /\ <<Ev.p, Ev.t>> = ProtoOf(Ev.fam, Ev.enc, Ev.https, Ev.strict) /\ Ev.same /\ UNCHANGED chvars
  \/ IsEvent("class") /\ Ev.cls = (IF Ev.exact THEN KnownClass(Ev.fam, Ev.https) ELSE ClassOf(Ev.fam, Ev.https, SmartName(Ev.fam))) /\ UNCHANGED chvars
  \/ IsEvent("params") /\ (Ev.ok <=> Ev.c.fam \in Families /\ Ev.c.enc \in Encs) /\ (Ev.ok => Ev.same) /\ UNCHANGED chvars
  \/ IsEvent("kind") /\ Ev.got = KindOf(Ev.fam, Rng(Ev.comps)) /\ UNCHANGED chvars
  \/ IsEvent("camkind") /\ Ev.got = CamKind(Ev.fam) /\ UNCHANGED chvars
  \/ IsEvent("childkind") /\ Ev.got = ChildKind(Ev.cat) /\ UNCHANGED chvars
  \/ IsEvent("oldkind") /\ Ev.got = LegacyKind(Ev.cls) /\ UNCHANGED chvars
TraceSpec == TraceInit /\ [][TraceNext]_<<chvars, tid, l>>
=============================================================================
