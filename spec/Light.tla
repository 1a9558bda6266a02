-------------------------------- MODULE Light --------------------------------
(* A lamp, what commands do to it, and what the library reports about it.    *)
(* kind: "smart", "bulb", "strip" (legacy), "dimmer"; absent arguments: -1;  *)
(* a value of the wrong type: -2.                                            *)
EXTENDS Integers
VARIABLES lamp, cfg
lvars == <<lamp, cfg>>
No == -1
Lamps == [on : BOOLEAN, bri : 1..100, hue : 0..360, sat : 0..100, ct : Nat]
\* cfg: [kind, color, temp, lo, hi]
In(x, a, b) == x >= a /\ x <= b
Opt(x, a, b) == x = No \/ In(x, a, b)
\* c: [c, on, b, h, s, t]
Supported(c) == CASE c.c = "hsv" -> cfg.color [] c.c = "ct" -> cfg.temp [] OTHER -> TRUE
\* rejected before anything is sent
Sound(c) ==
  /\ Supported(c)
  /\ c.c = "bri" => In(c.b, 0, 100)
  /\ c.c = "ct" => In(c.t, cfg.lo, cfg.hi)
  /\ c.c = "hsv" => In(c.h, 0, 360) /\ In(c.s, 0, 100) /\ Opt(c.b, 0, 100)
\* accepted by the lamp
Fits(c) == Sound(c) /\ (c.c \in {"ct", "hsv"} => Opt(c.b, 1, 100))
           /\ (c.c = "state" => Opt(c.b, 0, 100) /\ (cfg.kind # "dimmer" => Opt(c.h, 0, 360) /\ Opt(c.s, 0, 100) /\ (c.t \in {No, 0} \/ In(c.t, cfg.lo, cfg.hi))))
Or(x, old) == IF x = No THEN old ELSE x
Off == [lamp EXCEPT !.on = FALSE]
With(on, c) == [on |-> on, bri |-> Or(c.b, lamp.bri), hue |-> Or(c.h, lamp.hue), sat |-> Or(c.s, lamp.sat), ct |-> Or(c.t, lamp.ct)]
Lit == IF cfg.kind = "smart" THEN lamp.on ELSE TRUE   \* legacy lamps are switched on by any command that sets a value
StateOff(c) == c.b = 0 \/ c.on = 0
After(c) ==
  CASE c.c = "on" -> [lamp EXCEPT !.on = TRUE]
    [] c.c = "off" -> Off
    [] c.c = "bri" -> IF c.b = 0 THEN Off ELSE [lamp EXCEPT !.bri = c.b, !.on = Lit]
    [] c.c = "ct" -> [lamp EXCEPT !.ct = c.t, !.bri = Or(c.b, @), !.on = Lit]
    [] c.c = "hsv" -> [lamp EXCEPT !.hue = c.h, !.sat = c.s, !.bri = Or(c.b, @), !.ct = 0, !.on = Lit]
    [] c.c = "state" ->
         CASE cfg.kind = "dimmer" -> IF StateOff(c) THEN Off ELSE [lamp EXCEPT !.on = TRUE, !.bri = Or(c.b, @)]
           [] cfg.kind = "smart" -> With(~StateOff(c), [c EXCEPT !.b = IF @ = 0 THEN No ELSE @])
           [] OTHER -> IF StateOff(c) THEN Off ELSE With(TRUE, c)
Do(c) == Fits(c) /\ lamp' = After(c) /\ UNCHANGED cfg
Reject(c) == ~Fits(c) /\ UNCHANGED lvars
Refused == UNCHANGED lvars
\* switching off and naming an unsupported value at the same time: either the error or just switching off
Moot(c) == c.c = "state" /\ StateOff(c) /\ ~Fits(c) /\ UNCHANGED cfg /\ (lamp' = lamp \/ lamp' = Off)
\* what the library reports after an update: [on, bri, hue, sat, val, ct, st]
NoState == [on |-> FALSE, bri |-> No, hue |-> No, sat |-> No, ct |-> No]
View == [on |-> lamp.on, bri |-> lamp.bri,
         hue |-> IF cfg.color THEN lamp.hue ELSE No, sat |-> IF cfg.color THEN lamp.sat ELSE No, val |-> IF cfg.color THEN lamp.bri ELSE No,
         ct |-> IF cfg.temp THEN lamp.ct ELSE No,
         st |-> IF ~lamp.on THEN NoState
                ELSE [on |-> TRUE, bri |-> lamp.bri, hue |-> IF cfg.color THEN lamp.hue ELSE No, sat |-> IF cfg.color THEN lamp.sat ELSE No,
                      ct |-> IF cfg.temp THEN lamp.ct ELSE No]]
=============================================================================
