----------------------------- MODULE IotUpdTrace -----------------------------
EXTENDS IotUpd, TraceLib
S(x) == {x[i] : i \in 1..Len(x)}
TraceInit == TLInit /\ UInit
Q(x) == [m |-> x.m, c |-> x.c]
Toks(x) == LET a == {y \in S(x) : y.tok >= 0} IN [q \in {Q(y) : y \in a} |-> (CHOOSE y \in a : Q(y) = q).tok]
Qs(x) == {Q(y) : y \in S(x)}
Needs == Qs(Tr.needs)
TraceNext ==
  \/ IsEvent("discovered") /\ Discovered(Ev.tok)
  \* reading data before anything was read from the device
  \/ IsEvent("early") /\ ~met /\ known = <<>> /\ Ev.raised /\ UNCHANGED uvars
  \/ IsEvent("begin") /\ Begin
  \/ IsEvent("req") /\ Len(Ev.qs) = Cardinality(Qs(Ev.qs)) /\ (IF Ev.lost THEN Lost(Qs(Ev.qs)) ELSE Request(Qs(Ev.qs), Toks(Ev.qs), S(Ev.no)))
  \/ IsEvent("ok") /\ Ok(Needs)
  \/ IsEvent("err") /\ Ev.lib /\ Err
  \* every module sees its own part of the answers; vs: [m, c, tok] per module and query
  \/ IsEvent("view") /\ (\A v \in S(Ev.vs) : Q(v) \in DOMAIN known /\ v.tok \in known[Q(v)])
       /\ {q \in Needs \ Qs(Ev.vs) : q.m \notin unsup /\ (IF q \in DOMAIN known THEN -1 \notin known[q] ELSE FALSE)} = {}
       \* modules that were unsupported from the beginning are not there
       /\ S(Ev.absent) \subseteq unsup
       /\ S(Tr.never) \subseteq S(Ev.absent)
       /\ UNCHANGED uvars
TraceSpec == TraceInit /\ [][TraceNext]_<<uvars, tid, l>>
=============================================================================
