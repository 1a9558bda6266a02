------------------------------- MODULE StripMC -------------------------------
EXTENDS Strip
CONSTANTS NS, Vals, MaxN
VARIABLES n, last, was
mv == <<svars, n, last, was>>
V(k) == IF k = "on" THEN {0,1} ELSE IF k = "al" THEN Vals ELSE {0}
MInit == n = 0 /\ last = "init" /\ \E a \in [1..NS -> Vals], o \in [1..NS -> {0,1}] :
           SInit([on |-> o, al |-> a, us |-> a, en |-> a, su |-> 9]) /\ was = dev
One == [i \in Socks |-> {i}]
MNext ==
  \/ n < MaxN /\ n' = n + 1 /\ was' = dev /\
       \/ \E i \in Socks, k \in Fields : \E v \in V(k) : Other(Put(dev, {i}, k, v)) /\ last' = "other"
       \/ \E k \in Fields : \E v \in V(k) : \E S \in {Socks} \cup {{i} : i \in Socks} : Begin(S, k, v) /\ last' = "cmd"
       \/ BeginOwn("su") /\ last' = "cmd"
       \/ \E f \in BOOLEAN, ok \in BOOLEAN : Update(f, ok) /\ last' = (IF ok THEN IF f THEN "full" ELSE "quick" ELSE "failed")
       \/ \E i \in Socks, ok \in BOOLEAN : UpdateSocket(i, ok) /\ last' = "socket"
  \/ /\ n' = n /\ was' = was
     /\ \/ pend # None /\ \E S \in ({{i} : i \in Socks} \cup {{}, Socks}), r \in BOOLEAN, x \in BOOLEAN : Arrive(S, pend.k, pend.v, r, x) /\ last' = "arrive"
        \/ Done /\ last' = "done"
        \/ Failed /\ last' = "failed"
        \/ ~bad /\ Vanish /\ last' = "vanish"
MSpec == MInit /\ [][MNext]_mv
TypeOK == dev.on \in [1..NS -> {0,1}] /\ \A k \in Fields : \A i \in Socks : snap[k][i] # {}
\* a command changes nothing but its own field of its own sockets
Isolated == pend # None => /\ \A k \in Fields, i \in Socks : (k # pend.k \/ i \notin pend.s) => dev[k][i] = was[k][i]
                           /\ pend.k # "su" => dev.su = was.su
Reached == [][last' = "done" /\ pend.k # "su" => \A i \in pend.s : dev'[pend.k][i] = pend.v]_mv
\* after a complete update all that is told is true
Fresh == last = "full" => \A k \in Fields, i \in Socks : snap[k][i] = {dev[k][i]}
=============================================================================
