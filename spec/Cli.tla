----------------------------------- MODULE Cli -----------------------------------
(* The command line tool: every run connects to the device that the options name,  *)
(* does what the command says to the addressed unit, tells how it ended by the exit *)
(* code, answers with one JSON document when asked to, and disconnects.             *)
(* st is what the device has (not what the library thinks): a unit is the device    *)
(* itself or one of its children.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kind, st, refusing
cvars == <<kind, st, refusing>>
CInit(k, s) == kind = k /\ st = s /\ refusing = FALSE
NoNum == -9999

\* -- how the device is found
BadOptions(o) == (o.user > 0) # (o.pw > 0) \/ (o.host = 1 /\ o.alias > 0)
NoDevice(o) == o.host = 0 /\ o.alias = 0
Direct(o) == o.type # "" \/ o.enc > 0
Zero == [via |-> "none", host |-> 0, port |-> 0, timeout |-> 0, dt |-> 0, user |-> 0, pw |-> 0, fam |-> 0, enc |-> 0, https |-> 0, lv |-> 0, hash |-> 0]
Conn(o) ==
  IF BadOptions(o) \/ NoDevice(o) THEN Zero
  ELSE IF Direct(o) THEN
    [Zero EXCEPT !.via = "connect", !.host = 1, !.port = o.port, !.timeout = o.timeout, !.user = o.user, !.pw = o.pw, !.hash = o.hash,
                 !.fam = IF o.type = "camera" THEN 9 ELSE o.fam,
                 !.enc = IF o.type = "camera" THEN 1 ELSE IF o.enc = 0 THEN 2 ELSE o.enc,
                 !.https = IF o.type = "camera" THEN 1 ELSE o.https, !.lv = IF o.type = "camera" THEN 2 ELSE o.lv]
  ELSE IF o.alias > 0 THEN [Zero EXCEPT !.via = "discover", !.user = o.user, !.pw = o.pw]
  ELSE [Zero EXCEPT !.via = "single", !.host = 1, !.port = o.port, !.timeout = o.timeout, !.dt = o.dt, !.user = o.user, !.pw = o.pw]
\* miss: the device does not answer; alias 1 is the name of the device (in whatever case), 2 is nobody's
Reached(o) == ~BadOptions(o) /\ ~NoDevice(o) /\ o.alias # 2 /\ o.miss = 0

\* -- what the kinds of devices can do
Legacy == {"iplug", "istrip", "ibulb"}
Bulbs == {"bulb", "ibulb"}
Strips == {"strip", "istrip"}
Can(k, c, t) ==
  CASE c \in {"on", "off", "toggle", "state", "alias", "getalias"} -> TRUE
    [] c \in {"led", "getled"} -> k \in {"plug", "iplug"} \/ (k \in Strips /\ t = 1)
    [] c \in {"reboot", "reset", "join", "scan", "time"} -> TRUE
    [] c = "cred" -> k \notin Legacy
    [] c \in {"bri", "getbri", "hsv", "gethsv", "temp", "preset"} -> k \in Bulbs
    [] c \in {"sched", "del"} -> k \in Legacy
    [] c = "tob" -> k = "ibulb"
    [] c = "cons" -> k = "vacuum"
    [] c = "erase" -> k \in Legacy /\ (k # "istrip" \/ t = 1)
MaxTemp(k) == IF k = "bulb" THEN 6500 ELSE 9000
\* arguments that no device takes
Usage(c, a) ==
  CASE c = "bri" -> a.x \in 0..100
    [] c = "hsv" -> a.x \in 0..360 /\ a.y \in 0..100 /\ a.z \in 0..100
    [] c = "temp" -> a.x \in 2500..9000
    [] OTHER -> TRUE
Target(a) == IF a.ch > 0 THEN a.ch + 1 ELSE 1
HasKids == Len(st.names) > 1
Chosen(a) == a.ch = 0 \/ (HasKids /\ a.ch > 0)
Rules(t) == st.rules
Valid(c, a) ==
  CASE c = "temp" -> a.x <= MaxTemp(kind)
    [] c = "preset" -> a.i < Len(st.pre) /\ {a.x, a.y, a.z, a.w} # {NoNum}
    [] c = "sched" -> st.rules # <<>>
    [] c = "del" -> \E i \in DOMAIN st.rules : st.rules[i] = a.x
    [] c = "cons" -> a.x \in DOMAIN st.cons
    [] OTHER -> TRUE
Getters == {"state", "getalias", "getled", "getbri", "gethsv", "scan", "sched"}
Asks == {"reset", "cred"}
Set(old, new) == IF new = NoNum THEN old ELSE new
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* what the device has after a command is one of these
After(c, a, s) ==
  LET t == Target(a)
      w == [s EXCEPT !.writes = @ + 1]
      \* all sockets of a legacy strip at once
      All(v) == {[s EXCEPT !.on = [u \in DOMAIN s.on |-> IF u = 1 THEN 0 ELSE v], !.writes = @ + n] : n \in 1..Len(s.on)}
      Some == IF \E u \in DOMAIN s.on : s.on[u] = 1 THEN 1 ELSE 0
      Whole == kind = "istrip" /\ t = 1
      Lit(l) == {[w EXCEPT !.light = l, !.on[1] = v] : v \in {s.on[1], 1}} IN
  CASE c \in Getters -> {s}
    [] Whole /\ c = "on" -> All(1)
    [] Whole /\ c = "off" -> All(0)
    [] Whole /\ c = "toggle" -> All(1 - Some)
    [] c = "on" -> {[w EXCEPT !.on[t] = 1]}
    [] c = "off" -> {[w EXCEPT !.on[t] = 0]}
    [] c = "toggle" -> {[w EXCEPT !.on[t] = 1 - @]}
    [] c = "alias" -> {[w EXCEPT !.names[t] = a.x]}
    [] c = "led" -> {[w EXCEPT !.led = a.x]}
    [] c = "reboot" -> {[w EXCEPT !.boots = Append(@, a.x)]}
    [] c = "reset" -> {[w EXCEPT !.resets = @ + 1]}
    [] c = "join" -> {[w EXCEPT !.net = <<a.x, a.y, a.z>>]}
    [] c = "cred" -> {[w EXCEPT !.acc = <<a.x, a.y>>]}
    [] c = "time" -> {[w EXCEPT !.wall = a.x, !.zw = Set(@, a.y), !.zs = Set(@, a.z)]}
    [] c = "bri" -> Lit([s.light EXCEPT !.b = a.x])
    [] c = "hsv" -> UNION {Lit([b |-> a.z, h |-> a.x, s |-> a.y, t |-> x]) : x \in {0, s.light.t}}
    [] c = "temp" -> UNION {Lit([s.light EXCEPT !.t = a.x, !.h = x[1], !.s = x[2]]) : x \in {<<0, 0>>, <<s.light.h, s.light.s>>}}
    [] c = "preset" -> {[w EXCEPT !.pre[a.i + 1] = [b |-> Set(@.b, a.x), h |-> Set(@.h, a.y), s |-> Set(@.s, a.z), t |-> Set(@.t, a.w)]]}
    [] c = "del" -> {[w EXCEPT !.rules = Without(@, a.x)]}
    [] c = "tob" -> {[w EXCEPT !.tob[a.i] = a.x]}
    [] c = "cons" -> {[w EXCEPT !.cons[a.x] = 0]}
    [] c = "erase" -> {[w EXCEPT !.stats[a.i] = 0]}
Answer(c, a, s) ==
  CASE c = "state" -> <<s.on[Target(a)]>>
    [] c = "getalias" -> <<s.names[Target(a)]>>
    [] c = "getled" -> <<s.led>>
    [] c = "getbri" -> <<s.light.b>>
    [] c = "gethsv" -> <<s.light.h, s.light.s, s.light.b>>
    [] c = "scan" -> s.nets
    [] c = "sched" -> s.rules
    [] OTHER -> <<>>
Ok(o, c, a) == Reached(o) /\ Chosen(a) /\ Usage(c, a) /\ Can(kind, c, Target(a)) /\ Valid(c, a) /\ (c \in Getters => c # "scan" \/ ~refusing)
\* a run of the tool; ans: what is answered to questions; out: the answer that it prints (looked at if chk)
Run(o, c, a, ans, chk, exit, conn, out, left) ==
  /\ (Usage(c, a) => conn = Conn(o)) /\ conn \in {Conn(o), Zero}
  /\ left = 0
  /\ (IF ~Ok(o, c, a) \/ (refusing /\ c \notin Getters /\ ~(c \in Asks /\ ans = 0))
      THEN exit # 0 /\ UNCHANGED st
      ELSE IF c \in Asks /\ ans = 0 THEN UNCHANGED st
      ELSE exit = 0 /\ st' \in After(c, a, st) /\ (chk => out = Answer(c, a, st)))
  /\ UNCHANGED <<kind, refusing>>
Other(s) == st' = s /\ UNCHANGED <<kind, refusing>>
Refusing(b) == refusing' = b /\ UNCHANGED <<kind, st>>
=============================================================================
