------------------------------ MODULE SettingsMC ------------------------------
EXTENDS Settings
CONSTANTS MaxN
VARIABLES n, last
mv == <<svars, n, last>>
C(k, vs) == [k : {k}, v : vs, w : {No}, x : {No}]
B == {0, 1}
Cmds ==
  CASE cfg.mod = "unit" -> C("on", {0, 1, Wrong})
    [] cfg.mod \in Switches -> C("on", B)
    [] cfg.mod = "alarm" -> C("sound", {0, 3, cfg.n - 1, Wrong}) \cup C("volume", {-1, 0, 1, 2, 3, 4, Wrong}) \cup C("duration", {-1, 0, 1, 300, 600, 601}) \cup C("stop", {No})
                            \cup [k : {"play"}, v : {No, 0, 1, 600, 601}, w : {No, 0, 1, 2, 3, Wrong}, x : {No, 0, 2, Wrong}]
    [] cfg.mod = "siren" -> C("sound", {0, 3, cfg.n - 1, Wrong}) \cup C("volume", {-1, 0, 1, 10, 11}) \cup C("duration", {-1, 0, 1, 300, 6000, 6001}) \cup C("stop", {No})
                            \cup [k : {"play"}, v : {No, -1, 0, 6000, 6001}, w : {No, 0, 10, 11}, x : {No, 0, 2, Wrong}]
    [] cfg.mod = "autooff" -> C("enabled", B) \cup C("delay", {0, 1, 10, 120})
    [] cfg.mod = "trans" -> C("enabled", B) \cup C("onsec", {-1, 0, 1, cfg.top, cfg.top + 1}) \cup C("offsec", {-1, 0, 1, cfg.top2, cfg.top2 + 1})
    [] cfg.mod = "trv" -> C("target", {cfg.lo - 1, cfg.lo, cfg.lo + 5, cfg.hi, cfg.hi + 1}) \cup C("offset", {-11, -10, -1, 0, 10, 11}) \cup C("state", B) \cup C("frost", B)
    [] cfg.mod = "fan" -> C("level", {-1, 0, 1, 2, 3, 4, 5}) \cup C("sleep", B)
    [] cfg.mod = "led" -> C("led", B)
    [] cfg.mod = "vacuum" -> C("suction", {1, 2, 3, 4, 5, Wrong}) \cup C("water", {0, 1, 2, 3, Wrong}) \cup C("count", {0, 1, 2, 3, 4}) \cup C("carpet", B) \cup C("volume", {-1, 0, 50, 100, 101})
                             \cup C("auto", B) \cup C("dustmode", {-1000, 0, 1, 2, 3, Wrong}) \cup C("start", {No}) \cup C("pause", {No}) \cup C("home", {No})
    [] cfg.mod = "power" -> C("limit", {-1, 0, 1, cfg.top, cfg.top + 1}) \cup C("both", {-1, 0, 1, cfg.top, cfg.top + 1})
                            \cup [k : {"enabled"}, v : B, w : {No, -1, 0, 1, cfg.top, cfg.top + 1}, x : {No}]
    [] cfg.mod = "dimmer" -> C("low", {-1, 0, 51, 52}) \cup C("ramp", {9, 10, 50, 51}) \cup [k : {"fadeon", "fadeoff"}, v : {-1, 0, 500, 10000, 10001}, w : {No}, x : {No}]
                             \cup [k : {"gentleon", "gentleoff"}, v : {-1, 0, 500, 120000, 120001}, w : {No}, x : {No}]
    [] cfg.mod = "pir" -> C("enabled", B) \cup C("range", {0, 1, 2, 3, Wrong}) \cup C("threshold", {-1, 0, 50, 100, 101}) \cup C("cold", {0, 60000})
Start ==
  CASE cfg.mod \in Switches -> [on : B]
    [] cfg.mod \in {"alarm", "siren"} -> [sound : {1}, volume : {2}, duration : {30}, ring : {0}, rdur : {No}, rvol : {No}, rsound : {No}]
    [] cfg.mod = "autooff" -> [enabled : B, delay : {120}]
    [] cfg.mod = "trans" -> [on : B, off : B, onsec : {2}, offsec : {3}]
    [] cfg.mod = "trv" -> [target : {cfg.lo + 3}, offset : {2}, frost : B]
    [] cfg.mod = "fan" -> [on : B, level : {2}, sleep : B]
    [] cfg.mod = "led" -> [rule : 0..2]
    [] cfg.mod = "vacuum" -> [suction : {3}, water : {2}, count : {2}, carpet : B, volume : {84}, auto : B, dust : {1}, status : {0, 1, 4, 5, 7}]
    [] cfg.mod = "power" -> [enabled : B, limit : {0, 20}]
    [] cfg.mod = "dimmer" -> [low : {11}, fadeon : {1000}, fadeoff : {2000}, gentleon : {3000}, gentleoff : {10000}, ramp : {30}]
    [] cfg.mod = "pir" -> [enabled : B, range : 0..3, cold : {1000}, far : {80}, mid : {50}, near : {20}, custom : {33}]
Mods == Switches \cup {"alarm", "siren", "autooff", "trans", "trv", "fan", "led", "vacuum", "power", "dimmer", "pir"}
MInit == /\ cfg \in [mod : Mods, n : {19}, lo : {5}, hi : {30}, top : {60}, top2 : {40}]
         /\ s \in Start /\ n = 0 /\ last = [k |-> "none", before |-> s]
MDo(c) == Do(c) /\ last' = [k |-> c.k, cmd |-> c, before |-> s] /\ n' = n + 1
MReject(c) == Reject(c) /\ last' = [k |-> "rejected", before |-> s] /\ n' = n + 1
MNext == n < MaxN /\ \E c \in Cmds : MDo(c) \/ MReject(c)
MSpec == MInit /\ [][MNext]_mv
TypeOK == DOMAIN s = DOMAIN last.before /\ Holds(s)
Done == last.k \notin {"none", "rejected"}
Siblings == Done => \A f \in DOMAIN s : f \notin May(last.cmd) => s[f] = last.before[f]
Untouched == last.k = "rejected" => s = last.before
\* the value that was set is the value that is read
ReadBack == Done =>
  LET v == View c == last.cmd
      Name == CASE c.k = "onsec" -> "on" [] c.k = "offsec" -> "off" [] c.k = "dustmode" -> "dust" [] c.k = "both" -> "zero" [] OTHER -> c.k
  IN Name \in DOMAIN v => v[Name] = c.v
\* switching a thing on and off again keeps how it was configured
Remembers == (Done /\ last.k \in {"onsec", "offsec", "level", "both"} /\ last.cmd.v = 0)
             => \A f \in {"onsec", "offsec", "level", "limit"} \cap DOMAIN s : s[f] = last.before[f]
=============================================================================
