-------------------------------- MODULE OnSince --------------------------------
(* When a device was switched on, as told to the user.  Devices report a clock *)
(* and for how long they have been on; the difference jitters between polls.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tol
\* per unit (a device or one of its sockets):
\* held: what was last told (Off: nothing); cur: admissible readings (clock minus on-time) of the last update, Off while off;
\* new: it was off at some update since something was told
VARIABLES held, cur, new
ovars == <<held, cur, new>>
Off == -1
\* after an update that failed reading may fail as well
Fails == -2
OInit(n) == held = [i \in 1..n |-> Off] /\ cur = [i \in 1..n |-> {}] /\ new = [i \in 1..n |-> FALSE]
Poll(r) == cur' = [i \in DOMAIN held |-> {r[i]}] /\ new' = [i \in DOMAIN held |-> new[i] \/ r[i] = Off] /\ UNCHANGED held
\* an update that fails: nothing or everything new
PollFailed(r) == cur' = [i \in DOMAIN held |-> cur[i] \cup {r[i], Fails}] /\ new' = [i \in DOMAIN held |-> new[i] \/ r[i] = Off] /\ UNCHANGED held
Abs(x) == IF x < 0 THEN -x ELSE x
\* what may be told for a reading r
May(i, r) == IF r = Fails THEN {} ELSE IF r = Off THEN {Off}
             ELSE IF held[i] = Off THEN {r}
             ELSE IF new[i] THEN {r} \cup (IF Abs(r - held[i]) <= Tol THEN {held[i]} ELSE {})
             ELSE IF Abs(r - held[i]) < Tol THEN {held[i]}
             ELSE IF Abs(r - held[i]) = Tol THEN {held[i], r} ELSE {r}
Read(i, v) == /\ \E r \in cur[i] : v \in May(i, r) /\ cur' = [cur EXCEPT ![i] = {x \in @ : v \in May(i, x)}]
              /\ held' = [held EXCEPT ![i] = v] /\ new' = [new EXCEPT ![i] = FALSE]
ReadFails(i) == Fails \in cur[i] /\ UNCHANGED ovars
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the whole strip, its sockets just having been told: on for as long as the longest of them
Whole(v) == LET S == {held[i] : i \in DOMAIN held} \ {Off} IN v = IF S = {} THEN Off ELSE Min(S)
=============================================================================
