------------------------------- MODULE StripGen -------------------------------
EXTENDS StripMC, Json
VARIABLES hist
gv == <<mv, hist>>
\* what arrives is the library's choice; what is not: commands, updates, changes by others
H(x) == hist' = Append(hist, x)
B(b) == IF b THEN 1 ELSE 0
GInit == MInit /\ hist = <<>>
GStep == 
  \/ \E i \in Socks, k \in Fields : \E v \in V(k) : Other(Put(dev, {i}, k, v)) /\ last' = "other" /\ H([a |-> "other", i |-> i, k |-> k, on |-> IF k = "on" THEN v ELSE 0])
  \/ \E k \in Fields, i \in 0..NS : \E v \in V(k) :
       /\ (i = 0 => k # "al") /\ (LET S == IF i = 0 THEN Socks ELSE {i} IN pend = None /\ dev' = Put(dev, S, k, v))
       /\ last' = "done" /\ UNCHANGED <<snap, pend, bad>> /\ H([a |-> "cmd", i |-> i, k |-> k, on |-> IF k = "on" THEN v ELSE 0])
  \/ BeginOwn("su") /\ dev.su # 0 /\ last' = "cmd" /\ H([a |-> "own"])
  \/ Update(TRUE, TRUE) /\ last' = "full" /\ H([a |-> "update"])
  \/ last # "init" /\ Update(FALSE, TRUE) /\ last' = "quick" /\ H([a |-> "quick"])
  \/ last # "init" /\ \E i \in Socks : UpdateSocket(i, TRUE) /\ last' = "socket" /\ H([a |-> "sock", i |-> i])
GNext == \/ /\ n < MaxN /\ n' = n + 1 /\ was' = was /\ GStep
         \/ pend # None /\ dev' = [dev EXCEPT !.su = 0] /\ pend' = None /\ UNCHANGED <<snap, bad, n, last, was, hist>>
GSpec == GInit /\ [][GNext]_gv
Emit == (n = MaxN) => PrintT("SCRIPT " \o ToJson([on |-> was.on, steps |-> hist]))
=============================================================================
