------------------------------ MODULE StripTrace ------------------------------
EXTENDS Strip, TraceLib
S(x) == {x[i] : i \in 1..Len(x)}
D(x) == [on |-> x.on, al |-> x.al, us |-> x.us, en |-> x.en, su |-> x.su]
TraceInit == TLInit /\ SInit(D(Tr.dev))
\* what the stand-in answers to a request for the statistics of a month or year
Stat(e, y, m) == e * 1000000 + (y - 2000) * 100 + m
TraceNext ==
  \/ IsEvent("other") /\ Other(D(Ev.d))
  \/ IsEvent("cmd") /\ Begin(S(Ev.s), Ev.k, Ev.v)
  \/ IsEvent("own") /\ BeginOwn("su")
  \/ IsEvent("wire") /\ ~Ev.odd /\ Arrive(S(Ev.s), Ev.k, Ev.v, Ev.refused, Ev.lost)
  \/ IsEvent("unsent") /\ Vanish
  \/ IsEvent("done") /\ Done
  \/ IsEvent("failed") /\ Ev.lib /\ Failed
  \/ IsEvent("updated") /\ Update(Ev.full, TRUE)
  \/ IsEvent("sock") /\ UpdateSocket(Ev.i, TRUE)
  \/ IsEvent("upfail") /\ Ev.lib /\ Ev.lost /\ (IF Ev.i = 0 THEN Update(Ev.full, FALSE) ELSE UpdateSocket(Ev.i, FALSE))
  \/ IsEvent("view") /\ View(Ev.v) /\ UNCHANGED svars
  \* live statistics of one socket (i) or the sum over all (0)
  \/ IsEvent("stats") /\ pend = None /\ UNCHANGED svars
       /\ Ev.got = (IF Ev.i = 0 THEN Sum([i \in Socks |-> Stat(dev.en[i], Ev.y, Ev.m)]) ELSE Stat(dev.en[Ev.i], Ev.y, Ev.m))
  \/ IsEvent("status") /\ pend = None /\ UNCHANGED svars
       /\ IF Ev.i = 0 THEN Ev.sum = Sum(dev.en) /\ Ev.volt = Sum([i \in Socks |-> 200000 + dev.en[i]]) \div N
          ELSE Ev.sum = dev.en[Ev.i] /\ Ev.volt = 200000 + dev.en[Ev.i]
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
=============================================================================
