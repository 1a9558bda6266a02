---------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, TraceLib
TraceInit == TLInit /\ c = Tr.cfg /\ d = c
Rng(s) == {s[i] : i \in 1..Len(s)}
TraceNext ==
  \/ IsEvent("fields") /\ c = Ev.c /\ UNCHANGED cfgvars
  \/ IsEvent("export") /\ DoExport(Ev.opt, Ev.x) /\ (Ev.clear <=> Clear(d'))
  \/ IsEvent("reload") /\ Reload /\ Ev.c = d
  \/ IsEvent("equal") /\ (Ev.same <=> c = d) /\ UNCHANGED cfgvars
  \/ IsEvent("wire") /\ Has(c) /\ Wire(c) = <<Ev.proto, Ev.trans, Ev.scheme, Ev.host, Ev.port, Ev.timeout, Ev.batch, Rng(Ev.acc)>>
     /\ Ev.key = (Connected(c)).keys /\ Connect
  \/ IsEvent("unsup") /\ ~Has(c) /\ UNCHANGED cfgvars
  \/ IsEvent("hash") /\ Has(c) /\ Ev.of = OwnHash(c) /\ c' = [c EXCEPT !.timeout = Timeout(c)] /\ UNCHANGED d
  \* damaged dictionaries are refused, additional keys are ignored
  \/ IsEvent("bad") /\ Ev.refused /\ UNCHANGED cfgvars
  \/ IsEvent("end") /\ UNCHANGED cfgvars
  \/ IsEvent("extra") /\ Ev.c = d /\ UNCHANGED cfgvars
TraceSpec == TraceInit /\ [][TraceNext]_<<cfgvars, tid, l>>
=============================================================================
