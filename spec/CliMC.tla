---------------------------------- MODULE CliMC ----------------------------------
EXTENDS Cli
CONSTANTS MaxN
VARIABLES n, last
mv == <<cvars, n, last>>
O0 == [host |-> 1, alias |-> 0, type |-> "", enc |-> 0, port |-> 0, timeout |-> 5, dt |-> 10, user |-> 0, pw |-> 0, fam |-> 1, https |-> 0, lv |-> 2, hash |-> 0, miss |-> 0]
Opts == {O0, [O0 EXCEPT !.miss = 1], [O0 EXCEPT !.user = 1], [O0 EXCEPT !.alias = 1], [O0 EXCEPT !.host = 0], [O0 EXCEPT !.host = 0, !.alias = 2], [O0 EXCEPT !.host = 0, !.alias = 1],
         [O0 EXCEPT !.type = "smart"], [O0 EXCEPT !.type = "camera", !.user = 1, !.pw = 2], [O0 EXCEPT !.enc = 1, !.port = 8]}
St0(k) == [on |-> IF k \in Strips THEN <<0, 0, 1>> ELSE <<0>>, names |-> IF k \in Strips THEN <<1, 2, 3>> ELSE <<1>>, led |-> 1, light |-> [b |-> 50, h |-> 0, s |-> 0, t |-> 2700],
           acc |-> <<1, 1>>, net |-> <<0, 0, 0>>, nets |-> <<4>>, boots |-> <<>>, resets |-> 0, wall |-> 0, zw |-> 60, zs |-> 120, rules |-> <<1, 2>>,
           pre |-> <<[b |-> 1, h |-> 2, s |-> 3, t |-> 0]>>, tob |-> <<-1, 0>>, cons |-> <<5, 5>>, stats |-> <<3, 3>>, writes |-> 0]
A0 == [ch |-> 0, x |-> NoNum, y |-> NoNum, z |-> NoNum, w |-> NoNum, i |-> 0]
Cmds == {"on", "off", "toggle", "state", "alias", "getalias", "led", "getled", "reboot", "reset", "join", "scan", "time", "cred", "bri", "getbri", "hsv", "gethsv", "temp", "preset",
         "sched", "del", "tob", "cons", "erase"}
Args(c) ==
  CASE c \in {"on", "off", "toggle", "state", "getalias"} -> {[A0 EXCEPT !.ch = h] : h \in -2..2}
    [] c = "alias" -> {[A0 EXCEPT !.ch = h, !.x = x] : h \in -2..2, x \in {5, 6}}
    [] c \in {"led", "reboot", "cons", "del"} -> {[A0 EXCEPT !.x = x] : x \in 0..3}
    [] c = "bri" -> {[A0 EXCEPT !.x = x] : x \in {1, 100, 101}}
    [] c = "temp" -> {[A0 EXCEPT !.x = x] : x \in {2500, 8000, 9001}}
    [] c = "hsv" -> {[A0 EXCEPT !.x = x, !.y = 7, !.z = 8] : x \in {1, 361}}
    [] c = "preset" -> {[A0 EXCEPT !.i = i, !.x = x] : i \in 0..1, x \in {NoNum, 9}}
    [] c \in {"tob", "erase"} -> {[A0 EXCEPT !.i = i, !.x = x] : i \in 1..2, x \in {-1, 2}}
    [] c \in {"join", "cred", "time"} -> {[A0 EXCEPT !.x = 3, !.y = 4, !.z = 4]}
    [] OTHER -> {A0}
Kinds == {"plug", "strip", "bulb", "vacuum"} \cup Legacy
MInit == (\E k \in Kinds : CInit(k, St0(k))) /\ n = 0 /\ last = [c |-> "", exit |-> 0, ch |-> 0, dev |-> TRUE]
DoRun(o, c, a, e, y) == /\ n < MaxN /\ n' = n + 1 /\ last' = [c |-> c, exit |-> e, ch |-> a.ch, dev |-> Reached(o)]
                        /\ (e = 0 => Chosen(a) /\ Can(kind, c, Target(a)))
                        /\ Run(o, c, a, y, TRUE, e, Conn(o), IF Chosen(a) /\ Can(kind, c, Target(a)) THEN Answer(c, a, st) ELSE <<>>, 0)
DoRefuse == n < MaxN /\ n' = n + 1 /\ Refusing(~refusing) /\ last' = [c |-> "refuse", exit |-> 0, ch |-> 0, dev |-> TRUE]
DoOther == n < MaxN /\ n' = n + 1 /\ Other([st EXCEPT !.led = 1 - @]) /\ last' = [c |-> "other", exit |-> 0, ch |-> 0, dev |-> TRUE]
MNext == \/ \E c \in Cmds : \E a \in Args(c) : \E o \in Opts : \E e \in 0..1 : \E y \in 0..1 : DoRun(o, c, a, e, y)
         \/ DoRefuse \/ DoOther
MSpec == MInit /\ [][MNext]_mv
\* a run that ends with an error, or never reached the device, changed nothing
ErrorsAreClean == [][(last'.exit # 0 \/ ~last'.dev) => st' = st]_mv
\* no success without the device and a proper choice
Honest == last.exit = 0 => last.dev /\ (last.ch < 0 => FALSE) /\ (last.ch > 0 => HasKids)
\* only the chosen unit
OnlyChosen == [][last'.c \in {"on", "off", "toggle", "alias"} /\ (kind = "istrip" => last'.ch > 0) =>
                   \A u \in DOMAIN st.names : u # (IF last'.ch > 0 THEN last'.ch + 1 ELSE 1) => st'.on[u] = st.on[u] /\ st'.names[u] = st.names[u]]_mv
ReadsReadOnly == [][last'.c \in Getters => st' = st]_mv
OneWrite == [][last'.c # "other" => st'.writes - st.writes \in 0..(IF kind = "istrip" THEN Len(st.on) ELSE 1)]_mv
=============================================================================
