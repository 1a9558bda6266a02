---------------------------------- MODULE Admin ----------------------------------
(* Administration of devices: names, clock and zone, networks, account, rules,   *)
(* statistics, reboot and reset.  st is what the device has, told what the        *)
(* library told at its last update.  Texts are numbered, zones have a winter and  *)
(* a summer offset in minutes, instants are seconds.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kind, st, refusing, deaf, seen
avars == <<kind, st, refusing, deaf, seen>>
\* zones; may: whether legacy devices have it (they know a fixed table of zones)
Zones == << [w |-> 540, s |-> 540, may |-> TRUE], [w |-> 330, s |-> 330, may |-> TRUE], [w |-> -420, s |-> -420, may |-> TRUE],
            [w |-> 60, s |-> 120, may |-> TRUE], [w |-> 660, s |-> 600, may |-> TRUE], [w |-> 345, s |-> 345, may |-> TRUE],
            [w |-> 20, s |-> 20, may |-> FALSE], [w |-> -570, s |-> -570, may |-> FALSE], [w |-> 825, s |-> 765, may |-> FALSE],
            [w |-> 0, s |-> 0, may |-> TRUE], [w |-> -300, s |-> -240, may |-> TRUE],
            [w |-> 780, s |-> 780, may |-> TRUE] >>
Off(zw, zs, su) == 60 * (IF su = 1 THEN zs ELSE zw)
\* SMART devices are told the present offset as well
Diff(zw, zs, su, d) == IF kind = "smart" THEN (IF su = 1 THEN zs ELSE zw) ELSE d
AInit(k, s) == kind = k /\ st = s /\ refusing = FALSE /\ deaf = FALSE /\ seen = <<>>
\* the user who connected
Me == <<1, 1>>

Writes == {"name", "clock", "nclock", "join", "cred", "reboot", "reset", "delrule", "delrules", "enable", "erase"}
\* legacy devices can only be set to the zones they know; cameras take no zone that has no name (Fixed)
Fixed == {6, 7}
Possible(c, a) == ~(kind = "iot" /\ c = "clock" /\ ~Zones[a.z].may)
ZoneSet(a) == ~(kind = "cam" /\ a.z \in Fixed \cup {10})
\* how many commands the device gets: one, but the zone of a camera has one of its own
Cost(c, a) == IF kind = "cam" /\ c = "clock" /\ ZoneSet(a) THEN 2 ELSE 1
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Apply(c, a, s) ==
  LET t == [s EXCEPT !.writes = @ + Cost(c, a)] IN
  CASE c = "name" -> [t EXCEPT !.names[a.u] = a.x]
    [] c = "clock" -> (IF ZoneSet(a) THEN [t EXCEPT !.inst = a.i, !.su = a.su, !.zw = Zones[a.z].w, !.zs = Zones[a.z].s, !.td = Diff(Zones[a.z].w, Zones[a.z].s, a.su, @)] ELSE [t EXCEPT !.inst = a.i, !.su = a.su])
    \* a time without a zone is meant in the zone of the device
    [] c = "nclock" -> [t EXCEPT !.inst = a.i - Off(s.zw, s.zs, a.su), !.su = a.su, !.td = Diff(s.zw, s.zs, a.su, @)]
    [] c = "join" -> [t EXCEPT !.net = <<a.x, a.y, a.k>>, !.acc = IF kind = "smart" THEN Me ELSE @]
    [] c = "cred" -> [t EXCEPT !.acc = <<a.x, a.y>>]
    [] c = "reboot" -> [t EXCEPT !.boots = Append(@, a.x)]
    [] c = "reset" -> [t EXCEPT !.resets = @ + 1]
    [] c = "delrule" -> [t EXCEPT !.rules[a.u] = Without(@, a.x)]
    [] c = "delrules" -> [t EXCEPT !.rules[a.u] = <<>>]
    [] c = "enable" -> [t EXCEPT !.en[a.u] = a.x]
    [] c = "erase" -> [t EXCEPT !.stats[a.u] = 0]
\* a command whose answer is lost is repeated, but joining a network is never answered (the device is gone) and done once
RECURSIVE Again(_, _, _, _)
Again(c, a, s, k) == IF k = 0 THEN s ELSE Again(c, a, Apply(c, a, s), k - 1)
Tries(c) == IF deaf /\ c # "join" THEN 1..4 ELSE {1}
\* a command, how it ended, and what the device has afterwards
Do(c, a, res) ==
  /\ c \in Writes
  /\ (IF Possible(c, a) /\ ~refusing
      THEN res = (IF deaf /\ c # "join" THEN "lib" ELSE "ok") /\ \E k \in Tries(c) : st' = Again(c, a, st, k)
      ELSE res \in (IF Possible(c, a) THEN {"lib"} ELSE {"lib", "value"}) /\ UNCHANGED st)
  /\ UNCHANGED <<kind, refusing, deaf, seen>>
\* the networks the device finds
Scan(res, nets) == (IF refusing THEN res = "lib" ELSE res = "ok" /\ nets = st.nets) /\ UNCHANGED avars
\* what others do
Other(s) == st' = s /\ UNCHANGED <<kind, refusing, deaf, seen>>
Refusing(b) == refusing' = b /\ UNCHANGED <<kind, st, deaf, seen>>
Deaf(b) == deaf' = b /\ UNCHANGED <<kind, st, refusing, seen>>
\* updates, and what is told
View(s) == [names |-> s.names, inst |-> s.inst, off |-> Off(s.zw, s.zs, s.su) \div 60, rules |-> s.rules]
Update == seen' = View(st) /\ UNCHANGED <<kind, st, refusing, deaf>>
Tell(v) == v = seen /\ UNCHANGED avars
=============================================================================
