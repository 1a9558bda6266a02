------------------------------- MODULE Settings -------------------------------
(* The configurable modules of a device: the settings the device holds, what  *)
(* each command of the library may change, and what is read back.             *)
(* Everything is a number: switches 0/1, named values by position, absent     *)
(* arguments No, unknown names Wrong.                                         *)
EXTENDS Integers
VARIABLES s, cfg
svars == <<s, cfg>>
No == -9999
Wrong == -8888
In(x, a, b) == x >= a /\ x <= b
Opt(x, a, b) == x = No \/ In(x, a, b)
Or(x, old) == IF x = No THEN old ELSE x
\* Modules that are one switch
Switches == {"childlock", "childprot", "frost", "trans1", "autoupd", "unit", "lens", "camled", "motion-det", "person-det", "pet-det", "cry-det", "tamper-det",
             "las", "iotled", "sleepmode"}
\* What the device can hold.  cfg: [mod, n, lo, hi, top, top2]
Holds(t) ==
  CASE cfg.mod \in Switches -> t.on \in {0, 1}
    [] cfg.mod = "alarm" -> In(t.sound, 0, cfg.n - 1) /\ In(t.volume, 0, 3) /\ In(t.duration, 1, 600) /\ t.ring \in {0, 1}
    [] cfg.mod = "siren" -> In(t.sound, 0, cfg.n - 1) /\ In(t.volume, 0, 10) /\ In(t.duration, 0, 6000) /\ t.ring \in {0, 1}
    [] cfg.mod = "autooff" -> t.enabled \in {0, 1} /\ t.delay >= 0
    [] cfg.mod = "trans" -> t.on \in {0, 1} /\ t.off \in {0, 1} /\ In(t.onsec, 0, cfg.top) /\ In(t.offsec, 0, cfg.top2)
    [] cfg.mod = "trv" -> In(t.target, cfg.lo, cfg.hi) /\ In(t.offset, -10, 10) /\ t.frost \in {0, 1}
    [] cfg.mod = "fan" -> In(t.level, 1, 4) /\ t.on \in {0, 1} /\ t.sleep \in {0, 1}
    [] cfg.mod = "led" -> In(t.rule, 0, 2)
    [] cfg.mod = "vacuum" -> In(t.suction, 1, 5) /\ In(t.water, 0, 3) /\ In(t.count, 1, 3) /\ t.carpet \in {0, 1} /\ In(t.volume, 0, 100)
                             /\ t.auto \in {0, 1} /\ In(t.dust, 0, 3) /\ In(t.status, 0, 8)
    [] cfg.mod = "power" -> t.enabled \in {0, 1} /\ In(t.limit, 0, cfg.top)
    [] cfg.mod = "dimmer" -> In(t.low, 0, 51) /\ In(t.fadeon, 0, 10000) /\ In(t.fadeoff, 0, 10000) /\ In(t.gentleon, 0, 120000)
                             /\ In(t.gentleoff, 0, 120000) /\ In(t.ramp, 10, 50)
    [] cfg.mod = "pir" -> t.enabled \in {0, 1} /\ In(t.range, 0, 3) /\ t.cold >= 0
\* Commands: [k, v, w, x].  May(c): the settings it names.
May(c) ==
  CASE c.k \in {"play", "stop"} -> {"ring", "rdur", "rvol", "rsound"} \cup (IF cfg.mod = "siren" /\ c.k = "play" THEN {"sound", "volume", "duration"} ELSE {})
    [] cfg.mod = "trans" /\ c.k = "enabled" -> {"on", "off"}
    [] cfg.mod = "trans" /\ c.k = "onsec" -> {"on", "onsec"}
    [] cfg.mod = "trans" /\ c.k = "offsec" -> {"off", "offsec"}
    [] cfg.mod = "trv" /\ c.k = "target" -> {"target", "frost"}
    [] cfg.mod = "trv" /\ c.k = "state" -> {"frost"}
    [] cfg.mod = "fan" /\ c.k = "level" -> {"on", "level"}
    [] cfg.mod = "led" -> {"rule"}
    [] c.k = "dustmode" -> {"auto", "dust"}
    [] c.k \in {"start", "pause", "resume", "home"} -> {"status"}
    [] cfg.mod = "power" /\ c.k \in {"enabled", "both"} -> {"enabled", "limit"}
    [] cfg.mod = "pir" /\ c.k = "threshold" -> {"range", "custom"}
    [] OTHER -> {c.k}
\* Accepted
Fits(c) ==
  CASE cfg.mod \in {"alarm", "siren"} ->
         (LET dlo == IF cfg.mod = "alarm" THEN 1 ELSE 0
             dhi == IF cfg.mod = "alarm" THEN 600 ELSE 6000
             vhi == IF cfg.mod = "alarm" THEN 3 ELSE 10
         IN CASE c.k = "sound" -> In(c.v, 0, cfg.n - 1) [] c.k = "volume" -> In(c.v, 0, vhi) [] c.k = "duration" -> In(c.v, dlo, dhi)
              [] c.k = "play" -> Opt(c.v, dlo, dhi) /\ Opt(c.w, 0, vhi) /\ Opt(c.x, 0, cfg.n - 1)
              [] OTHER -> TRUE)
    [] cfg.mod = "autooff" -> c.v >= 0
    [] cfg.mod = "trans" -> (CASE c.k = "onsec" -> In(c.v, 0, cfg.top) [] c.k = "offsec" -> In(c.v, 0, cfg.top2) [] OTHER -> TRUE)
    [] cfg.mod = "trv" -> (CASE c.k = "target" -> In(c.v, cfg.lo, cfg.hi) [] c.k = "offset" -> In(c.v, -10, 10) [] OTHER -> TRUE)
    [] cfg.mod = "fan" -> c.k = "level" => In(c.v, 0, 4)
    [] cfg.mod = "vacuum" -> (CASE c.k = "suction" -> In(c.v, 1, 5) [] c.k = "water" -> In(c.v, 0, 3) [] c.k = "count" -> In(c.v, 1, 3)
                               [] c.k = "volume" -> In(c.v, 0, 100) [] c.k = "dustmode" -> c.v = -1000 \/ In(c.v, 0, 3) [] OTHER -> TRUE)
    [] cfg.mod = "power" -> (CASE c.k = "limit" -> In(c.v, 0, cfg.top) [] c.k = "both" -> In(c.v, 0, cfg.top)
                              [] c.k = "enabled" -> Opt(c.w, 0, cfg.top) [] OTHER -> TRUE)
    [] cfg.mod = "dimmer" -> (CASE c.k = "low" -> In(c.v, 0, 51) [] c.k \in {"fadeon", "fadeoff"} -> In(c.v, 0, 10000)
                               [] c.k \in {"gentleon", "gentleoff"} -> In(c.v, 0, 120000) [] c.k = "ramp" -> In(c.v, 10, 50))
    [] cfg.mod = "pir" -> (CASE c.k = "range" -> In(c.v, 0, 3) [] c.k = "threshold" -> In(c.v, 0, 100) [] OTHER -> TRUE)
    [] cfg.mod = "unit" -> c.v # Wrong
    [] OTHER -> TRUE
After(c) ==
  CASE cfg.mod \in Switches -> [s EXCEPT !.on = c.v]
    [] cfg.mod \in {"alarm", "siren"} ->
         (CASE c.k = "sound" -> [s EXCEPT !.sound = c.v]
           [] c.k = "volume" -> [s EXCEPT !.volume = c.v]
           [] c.k = "duration" -> [s EXCEPT !.duration = c.v]
           [] c.k = "stop" -> [s EXCEPT !.ring = 0, !.rdur = No, !.rvol = No, !.rsound = No]
           \* an alarm plays with the given values, the hub's own otherwise; a siren can only be configured
           [] c.k = "play" /\ cfg.mod = "alarm" -> [s EXCEPT !.ring = 1, !.rdur = Or(c.v, s.duration), !.rvol = Or(c.w, s.volume), !.rsound = Or(c.x, s.sound)]
           [] OTHER -> [s EXCEPT !.ring = 1, !.duration = Or(c.v, @), !.volume = Or(c.w, @), !.sound = Or(c.x, @),
                                 !.rdur = Or(c.v, s.duration), !.rvol = Or(c.w, s.volume), !.rsound = Or(c.x, s.sound)])
    [] cfg.mod = "autooff" -> IF c.k = "enabled" THEN [s EXCEPT !.enabled = c.v] ELSE [s EXCEPT !.delay = c.v]
    [] cfg.mod = "trans" ->
         (CASE c.k = "enabled" -> [s EXCEPT !.on = c.v, !.off = c.v]
           [] c.k = "onsec" -> IF c.v = 0 THEN [s EXCEPT !.on = 0] ELSE [s EXCEPT !.on = 1, !.onsec = c.v]
           [] OTHER -> IF c.v = 0 THEN [s EXCEPT !.off = 0] ELSE [s EXCEPT !.off = 1, !.offsec = c.v])
    [] cfg.mod = "trv" ->
         (CASE c.k = "target" -> [s EXCEPT !.target = c.v, !.frost = 0]   \* asking for a temperature means heating
           [] c.k = "offset" -> [s EXCEPT !.offset = c.v]
           [] c.k = "state" -> [s EXCEPT !.frost = 1 - c.v]
           [] OTHER -> [s EXCEPT !.frost = c.v])
    [] cfg.mod = "fan" ->
         (CASE c.k = "level" -> IF c.v = 0 THEN [s EXCEPT !.on = 0] ELSE [s EXCEPT !.on = 1, !.level = c.v]
           [] OTHER -> [s EXCEPT !.sleep = c.v])
    [] cfg.mod = "led" -> [s EXCEPT !.rule = IF c.v = 1 THEN 0 ELSE 1]   \* always, never, night mode
    [] cfg.mod = "vacuum" ->
         (CASE c.k = "suction" -> [s EXCEPT !.suction = c.v]
           [] c.k = "water" -> [s EXCEPT !.water = c.v]
           [] c.k = "count" -> [s EXCEPT !.count = c.v]
           [] c.k = "carpet" -> [s EXCEPT !.carpet = c.v]
           [] c.k = "volume" -> [s EXCEPT !.volume = c.v]
           [] c.k = "auto" -> [s EXCEPT !.auto = c.v]
           [] c.k = "dustmode" -> IF c.v = -1000 THEN [s EXCEPT !.auto = 0] ELSE [s EXCEPT !.auto = 1, !.dust = c.v]
           \* Idle 0, Cleaning 1, GoingHome 4, Charging 5, Paused 7
           [] c.k = "start" -> [s EXCEPT !.status = 1]
           [] c.k = "pause" -> [s EXCEPT !.status = IF s.status = 4 THEN 0 ELSE 7]
           [] OTHER -> [s EXCEPT !.status = 4])
    [] cfg.mod = "power" ->
         (CASE c.k = "limit" -> [s EXCEPT !.limit = c.v]
           [] c.k = "enabled" -> [s EXCEPT !.enabled = c.v, !.limit = IF c.w # No THEN c.w ELSE IF c.v = 1 /\ @ = 0 THEN cfg.top \div 2 ELSE @]
           [] OTHER -> IF c.v = 0 THEN [s EXCEPT !.enabled = 0] ELSE [s EXCEPT !.enabled = 1, !.limit = c.v])
    [] cfg.mod = "dimmer" ->
         (CASE c.k = "low" -> [s EXCEPT !.low = c.v] [] c.k = "fadeon" -> [s EXCEPT !.fadeon = c.v] [] c.k = "fadeoff" -> [s EXCEPT !.fadeoff = c.v]
           [] c.k = "gentleon" -> [s EXCEPT !.gentleon = c.v] [] c.k = "gentleoff" -> [s EXCEPT !.gentleoff = c.v] [] OTHER -> [s EXCEPT !.ramp = c.v])
    [] cfg.mod = "pir" ->
         (CASE c.k = "enabled" -> [s EXCEPT !.enabled = c.v] [] c.k = "range" -> [s EXCEPT !.range = c.v]
           [] c.k = "threshold" -> [s EXCEPT !.range = 3, !.custom = c.v] [] OTHER -> [s EXCEPT !.cold = c.v])
Do(c) == Fits(c) /\ s' = After(c) /\ UNCHANGED cfg
Reject(c) == ~Fits(c) /\ UNCHANGED svars
\* What the library reports after an update
View ==
  CASE cfg.mod \in {"alarm", "siren"} -> [sound |-> s.sound, volume |-> s.volume, duration |-> s.duration, ring |-> s.ring]
    [] cfg.mod = "trans" -> [on |-> IF s.on = 1 THEN s.onsec ELSE 0, off |-> IF s.off = 1 THEN s.offsec ELSE 0, enabled |-> IF s.on = 1 \/ s.off = 1 THEN 1 ELSE 0]
    [] cfg.mod = "trv" -> [target |-> s.target, offset |-> s.offset, state |-> 1 - s.frost]
    [] cfg.mod = "fan" -> [level |-> IF s.on = 1 THEN s.level ELSE 0, sleep |-> s.sleep]
    [] cfg.mod = "led" -> [rule |-> s.rule, led |-> IF s.rule = 1 THEN 0 ELSE 1]
    [] cfg.mod = "vacuum" -> [suction |-> s.suction, water |-> s.water, count |-> s.count, carpet |-> s.carpet, volume |-> s.volume, auto |-> s.auto,
                              dust |-> IF s.auto = 1 THEN s.dust ELSE -1000, status |-> s.status]
    [] cfg.mod = "power" -> [enabled |-> s.enabled, limit |-> s.limit, zero |-> IF s.enabled = 1 THEN s.limit ELSE 0]
    [] cfg.mod = "pir" -> [enabled |-> s.enabled, range |-> s.range, cold |-> s.cold,
                           threshold |-> (CASE s.range = 0 -> s.far [] s.range = 1 -> s.mid [] s.range = 2 -> s.near [] OTHER -> s.custom)]
    [] OTHER -> s
=============================================================================
