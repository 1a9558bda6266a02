----------------------------- MODULE RedactTrace -----------------------------
EXTENDS Redact, TraceLib
S(x) == {x[i] : i \in 1..Len(x)}
TraceInit == TLInit /\ RInit
\* a leaf: the keys that lead to it (p), and whether its first nine characters (head), its last ones (tail) or its middle are in the log
Ok(fam, y) == LET u == Under(fam, y.p) IN
  u = {} \/ LET how == Secret(fam)[y.p[CHOOSE i \in u : \A j \in u : i <= j]] IN
    IF how = "head" THEN ~y.head ELSE IF how = "tail" THEN ~y.tail ELSE ~y.head /\ ~y.tail /\ ~y.mid
TraceNext ==
  \/ IsEvent("switch") /\ Switch(Ev.on)
  \/ IsEvent("answer") /\ Ev.same /\ UNCHANGED rvars /\ (on => \A y \in S(Ev.leaves) : Ok(Ev.fam, y))
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, tid, l>>
=============================================================================
