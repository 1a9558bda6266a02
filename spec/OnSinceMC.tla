------------------------------ MODULE OnSinceMC ------------------------------
(* The real switch-on instant, a jittering on-time counter, a clock that may be set *)
EXTENDS OnSince
CONSTANTS MaxT, J, Jumps
VARIABLES t, off, since, seen, set, last
\* t: time; off: what the device's clock is off by; since: when it was switched on (Off: it is off);
\* seen: it went off (1: not polled since, 2: nothing told since polled); set: the same for changes of the clock
mv == <<ovars, t, off, since, seen, set, last>>
MInit == OInit(1) /\ t = 100 /\ off = 0 /\ since \in {Off, 100} /\ seen = 0 /\ set = 0 /\ last = "init"
Raw(j) == IF since = Off THEN Off ELSE since + off + j
Up(x) == IF x = 1 THEN 2 ELSE x
Down(x) == IF x = 2 THEN 0 ELSE x
MNext ==
  \/ t < MaxT /\ t' = t + 1 /\ last' = "tick" /\ UNCHANGED <<ovars, off, since, seen, set>>
  \/ since = Off /\ since' = t /\ last' = "on" /\ UNCHANGED <<ovars, t, off, seen, set>>
  \/ since # Off /\ since' = Off /\ seen' = 1 /\ last' = "off" /\ UNCHANGED <<ovars, t, off, set>>
  \/ \E a \in Jumps \cup {-x : x \in Jumps} : off = 0 /\ off' = a /\ set' = 1 /\ last' = "clock" /\ UNCHANGED <<ovars, t, since, seen>>
  \/ \E j \in -J..J : Poll(<<Raw(j)>>) /\ last' = "poll" /\ seen' = Up(seen) /\ set' = Up(set) /\ UNCHANGED <<t, off, since>>
  \/ \E j \in -J..J : cur[1] # {} /\ PollFailed(<<Raw(j)>>) /\ last' = "fail" /\ UNCHANGED <<t, off, since, seen, set>>
  \/ cur[1] # {} /\ (\E v \in UNION {May(1, r) : r \in cur[1]} : Read(1, v))
       /\ (LET good == since = Off \/ Abs(held'[1] - since - off) <= J IN seen' = (IF good THEN Down(seen) ELSE seen) /\ set' = (IF good THEN Down(set) ELSE set)) /\ last' = "read" /\ UNCHANGED <<t, off, since>>
  \/ ReadFails(1) /\ last' = "unread" /\ UNCHANGED <<t, off, since, seen, set>>
MSpec == MInit /\ [][MNext]_mv
\* as long as it stays on and its clock is left alone nothing else is told than at first, if it jitters by less than half the tolerance
Stable == [][(last' = "read" /\ seen = 0 /\ set = 0 /\ held[1] # Off /\ held'[1] # Off) => Abs(held'[1] - held[1]) <= IF 2 * J < Tol THEN 0 ELSE 100]_mv
\* reading right after an update tells the truth, up to the tolerance
True_ == [][(last' = "read" /\ last = "poll") => IF since = Off THEN held'[1] = Off ELSE held'[1] # Off /\ Abs(held'[1] - since - off) <= Tol + J]_mv
\* off is told by nothing being told
None_ == [][(last' = "read" /\ cur[1] = {Off}) => held'[1] = Off]_mv
Fresh == [][(last' = "read" /\ held[1] = Off /\ Cardinality(cur[1]) = 1) => held'[1] \in cur[1]]_mv
=============================================================================
