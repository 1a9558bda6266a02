----------------------------- MODULE FirmwareTrace -----------------------------
EXTENDS Firmware, TraceLib
TraceInit == TLInit /\ FInit
Feats(v) == v.available = (IF ~cloud \/ known = "none" THEN -1 ELSE IF known = "yes" THEN 1 ELSE 0) /\ (v.version <=> known # "none") /\ v.current
TraceNext ==
  \/ More /\ Ev.t > now /\ Tick(Ev.t) /\ Silent
  \/ More /\ Ev.t = now /\
     ( \/ IsEvent("cloud") /\ Cloud(Ev.c)
       \/ IsEvent("check") /\ Check(Ev.r) /\ Ev.ret = (Ev.r # "none")
       \/ IsEvent("view") /\ Feats(Ev.v) /\ UNCHANGED fvars
       \/ IsEvent("call") /\ IF Available THEN Begin ELSE UNCHANGED fvars
       \/ IsEvent("denied") /\ Deny
       \/ IsEvent("download") /\ Download
       \/ IsEvent("poll") /\ IF Ev.k = "answer" THEN Answer(Ev.s) ELSE Lost
       \/ IsEvent("tell") /\ Tell(Ev.s)
       \/ IsEvent("refused") /\ Refused
       \/ IsEvent("end") /\ Finish(Ev.s)
       \/ IsEvent("timeout") /\ Expire
       \/ IsEvent("cancelled") /\ Cancelled
       \* everything has come to rest
       \/ IsEvent("quiet") /\ ~busy /\ told = Len(seen) /\ UNCHANGED fvars )
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, tid, l>>
=============================================================================
