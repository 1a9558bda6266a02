--------------------------------- MODULE Strip ---------------------------------
(* A legacy strip: sockets addressed one by one behind one device, and what   *)
(* the library last read of each of them.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* dev: on, al(ias), us(age), en(ergy): one value per socket; su: the strip's own usage
\* snap: the same as last read: sets of admissible values
\* pend: the running command; bad: an answer was refused or lost since it began
VARIABLES dev, snap, pend, bad
svars == <<dev, snap, pend, bad>>
None == [k |-> "none"]
Fields == {"on", "al", "us", "en"}
N == Len(dev.on)
Socks == 1..N
Unread == -1
SInit(d) == dev = d /\ pend = None /\ bad = FALSE
            /\ snap = [f \in Fields |-> [i \in DOMAIN d.on |-> {Unread}]] @@ ("su" :> {Unread})
Put(d, S, k, v) == [d EXCEPT ![k] = [i \in DOMAIN @ |-> IF i \in S THEN v ELSE @[i]]]
\* somebody else changes a socket or time passes
Other(d) == pend = None /\ Len(d.on) = N /\ dev' = d /\ UNCHANGED <<snap, pend, bad>>
Begin(S, k, v) == pend = None /\ S # {} /\ S \subseteq Socks /\ pend' = [k |-> k, s |-> S, v |-> v] /\ bad' = FALSE /\ UNCHANGED <<dev, snap>>
\* a command of the strip itself: its sockets keep everything
BeginOwn(k) == pend = None /\ k = "su" /\ pend' = [k |-> k, s |-> {}, v |-> 0] /\ bad' = FALSE /\ UNCHANGED <<dev, snap>>
\* a command arrives for the sockets S ({}: for the strip itself)
Arrive(S, k, v, refused, lost) ==
  /\ pend # None /\ k = pend.k /\ v = pend.v
  /\ IF k = "su" THEN S = {} ELSE S # {} /\ S \subseteq pend.s
  /\ dev' = IF refused THEN dev ELSE IF k = "su" THEN [dev EXCEPT !.su = 0] ELSE Put(dev, S, k, v)
  /\ bad' = (bad \/ refused \/ lost) /\ UNCHANGED <<snap, pend>>
\* a request that does not arrive
Vanish == pend # None /\ bad' = TRUE /\ UNCHANGED <<dev, snap, pend>>
Done == /\ pend # None
        /\ IF pend.k = "su" THEN dev.su = 0 ELSE \A i \in pend.s : dev[pend.k][i] = pend.v
        /\ pend' = None /\ UNCHANGED <<dev, snap, bad>>
Failed == pend # None /\ bad /\ pend' = None /\ UNCHANGED <<dev, snap, bad>>
\* reading: the strip's own part (sysinfo and own usage) / the parts of the sockets S
Own(old, sure) == [on |-> [i \in Socks |-> (IF sure THEN {} ELSE old.on[i]) \cup {dev.on[i]}],
                   al |-> [i \in Socks |-> (IF sure THEN {} ELSE old.al[i]) \cup {dev.al[i]}],
                   su |-> (IF sure THEN {} ELSE old.su) \cup {dev.su},
                   us |-> old.us, en |-> old.en]
Kids(old, S, sure) == [old EXCEPT !.us = [i \in Socks |-> IF i \in S THEN (IF sure THEN {} ELSE @[i]) \cup {dev.us[i]} ELSE @[i]],
                                  !.en = [i \in Socks |-> IF i \in S THEN (IF sure THEN {} ELSE @[i]) \cup {dev.en[i]} ELSE @[i]]]
Update(full, ok) == pend = None /\ snap' = (IF full THEN Kids(Own(snap, ok), Socks, ok) ELSE Own(snap, ok)) /\ UNCHANGED <<dev, pend, bad>>
\* updating one socket need not, but may, renew what the strip told of it
UpdateSocket(i, ok) == pend = None /\ snap' = Kids(Own(snap, FALSE), {i}, ok) /\ UNCHANGED <<dev, pend, bad>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* what the library tells of the sockets (and of the whole strip)
View(v) == /\ \A i \in Socks : /\ v.on[i] \in snap.on[i] /\ v.al[i] \in snap.al[i]
                               /\ v.us[i] \in snap.us[i] /\ v.en[i] \in snap.en[i]
           /\ v.su \in snap.su
           /\ v.any = (\E i \in Socks : v.on[i] = 1)
           /\ v.meter => v.sum = Sum(v.en)
                         /\ v.volt = Sum([i \in Socks |-> 200000 + v.en[i]]) \div N
=============================================================================
