-------------------------------- MODULE AdminMC --------------------------------
EXTENDS Admin
CONSTANTS MaxN
VARIABLES n, last, told
mv == <<avars, n, last, told>>
Insts == {1000000, 20000000}
St0 == [names |-> <<0, 0>>, inst |-> 0, su |-> 0, td |-> 60, zw |-> 60, zs |-> 120, net |-> <<0, 0, 0>>, acc |-> Me, boots |-> <<>>, resets |-> 0,
        rules |-> <<<<1, 2>>, <<2>>>>, en |-> <<1, 0>>, stats |-> <<3, 3>>, nets |-> <<1>>, writes |-> 0]
A0 == [u |-> 1, x |-> 0, y |-> 0, k |-> 0, z |-> 1, i |-> 0, su |-> 0]
Args(c) ==
  CASE c = "name" -> {[A0 EXCEPT !.u = u, !.x = x] : u \in 1..2, x \in 1..2}
    [] c = "clock" -> {[A0 EXCEPT !.z = z, !.i = i, !.su = s] : z \in {1, 4, 7, 9, 10}, i \in Insts, s \in 0..1}
    [] c = "nclock" -> {[A0 EXCEPT !.i = i, !.su = s] : i \in Insts, s \in 0..1}
    [] c \in {"join", "cred"} -> {[A0 EXCEPT !.x = x, !.y = y] : x \in 1..2, y \in 1..2}
    [] c = "reboot" -> {[A0 EXCEPT !.x = x] : x \in 1..2}
    [] c \in {"delrule", "enable"} -> {[A0 EXCEPT !.u = u, !.x = x] : u \in 1..2, x \in 0..2}
    [] OTHER -> {[A0 EXCEPT !.u = u] : u \in 1..2}
MInit == (\E k \in {"smart", "iot", "cam"} : AInit(k, St0)) /\ n = 0 /\ last = [c |-> "", res |-> ""] /\ told = <<>>
Tick(c, r) == n < MaxN /\ n' = n + 1 /\ last' = [c |-> c, res |-> r]
DoCmd(c, a, r) == Do(c, a, r) /\ Tick(c, r) /\ UNCHANGED told
DoOther == Other([st EXCEPT !.names[1] = 7, !.nets = <<2>>]) /\ Tick("other", "") /\ UNCHANGED told
DoUpdate == Update /\ Tick("update", "") /\ UNCHANGED told
DoTell == seen # <<>> /\ Tell(seen) /\ Tick("tell", "") /\ told' = seen
DoRefuse == Refusing(~refusing) /\ Tick("refuse", "") /\ UNCHANGED told
DoDeaf == kind = "smart" /\ Deaf(~deaf) /\ Tick("deaf", "") /\ UNCHANGED told
DoScan == Scan(IF refusing THEN "lib" ELSE "ok", st.nets) /\ Tick("scan", "") /\ UNCHANGED told
MNext == \/ \E c \in Writes : \E a \in Args(c) : \E r \in {"ok", "lib", "value"} : DoCmd(c, a, r)
         \/ DoOther \/ DoUpdate \/ DoTell \/ DoRefuse \/ DoDeaf \/ DoScan
MSpec == MInit /\ [][MNext]_mv
\* what fails changes nothing, unless the answer was lost
FailsClean == [][(last'.res \in {"lib", "value"} /\ ~deaf) => st' = st]_mv
\* nothing but the device itself and commands change it, and what is answered is never repeated
Once == [][(last'.c # "other") => st'.writes - st.writes \in (IF deaf /\ last'.c # "join" THEN 0..4 ELSE 0..2)]_mv
Touch == "name" :> {"names"} @@ "clock" :> {"inst", "su", "zw", "zs", "td"} @@ "nclock" :> {"inst", "su", "td"} @@ "join" :> {"net", "acc"} @@ "cred" :> {"acc"} @@ "reboot" :> {"boots"}
      @@ "reset" :> {"resets"} @@ "delrule" :> {"rules"} @@ "delrules" :> {"rules"} @@ "enable" :> {"en"} @@ "erase" :> {"stats"}
Only == [][last'.c \in Writes => \A f \in DOMAIN st \ (Touch[last'.c] \cup {"writes"}) : st'[f] = st[f]]_mv
\* a clock set by an instant shows that instant whatever the zone
Instant == [][(last'.c = "clock" /\ last'.res = "ok") => st'.inst \in Insts]_mv
Local == [][(last'.c = "nclock" /\ st' # st) => st'.inst + Off(st'.zw, st'.zs, st'.su) \in Insts]_mv
\* what is told is what the device had at the last update
Tells == told = <<>> \/ DOMAIN told = {"names", "inst", "off", "rules"}
=============================================================================
