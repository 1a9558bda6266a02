----------------------------- MODULE FeatureTrace -----------------------------
EXTENDS Feature, TraceLib
Rec(f) == [type |-> f.type, ro |-> f.ro, lo |-> f.lo, hi |-> f.hi, opts |-> ToSet(f.opts)]
TraceInit == TLInit /\ feats = [i \in DOMAIN Tr.feats |-> Rec(Tr.feats[i])] /\ passed = [i \in DOMAIN Tr.feats |-> <<>>]
F == Ev.f
TraceNext ==
  \* calls: what the setter got; ok: no error was raised; up: the setter itself worked; sent: requests that change something
  \/ IsEvent("set") /\ (\/ Pass(F, Ev.v) /\ Ev.calls = <<Ev.v>> /\ Ev.ok = Ev.up
                        \/ Refuse(F, Ev.v) /\ Ev.calls = <<>> /\ ~Ev.ok /\ Ev.sent = 0)
  \* the feature was asked what it advertises: now, or what it said before
  \/ IsEvent("advert") /\ (IF Ev.lo = feats[F].lo /\ Ev.hi = feats[F].hi /\ ToSet(Ev.opts) = feats[F].opts THEN UNCHANGED fvars
                           ELSE ToSet(Ev.opts) = feats[F].opts /\ Ev.lo = Ev.lo0 /\ Ev.hi = Ev.hi0 /\ NewRange(F, Ev.lo, Ev.hi))
  \/ IsEvent("range") /\ NewRange(F, Ev.lo, Ev.hi)
  \/ IsEvent("choices") /\ NewChoices(F, ToSet(Ev.opts))
  \/ IsEvent("desc") /\ Consistent(feats[F], Ev.val) /\ UNCHANGED fvars
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, tid, l>>
=============================================================================
