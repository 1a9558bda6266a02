-------------------------------- MODULE Scenes --------------------------------
(* Light effects and presets: what selecting, adjusting and saving them does *)
(* to the lamp and what the library reports about them.                      *)
(* cfg: [kind, color, temp, bonly, n, dflt].  kind: "rules" (bulbs with      *)
(* stored effect rules), "sstrip" and "istrip" (strips, SMART and legacy),   *)
(* "smart" and "iot" (presets only).  Absent: -1; unknown name: -2.          *)
EXTENDS Integers, Sequences
VARIABLES cfg, lamp, eff, rules, slots
svars == <<cfg, lamp, eff, rules, slots>>
No == -1
Custom == -1
\* lamp: [bri, hue, sat, ct].  eff: [k, bri]: the running effect (0: none).  rules: brightness of each stored rule.  slots: Seq([e, bri, hue, sat, ct])
HasEff == cfg.kind \in {"rules", "sstrip", "istrip"}
Legacy == cfg.kind \in {"istrip", "iot"}
Or(x, old) == IF x = No THEN old ELSE x
Bri == IF eff.k = 0 THEN lamp.bri ELSE IF cfg.kind = "rules" THEN rules[eff.k] ELSE eff.bri
Stopped == [k |-> 0, bri |-> 0]
RECURSIVE NormalIn(_)
NormalIn(s) == IF s = 0 THEN 0 ELSE NormalIn(s - 1) + (IF slots[s].e THEN 0 ELSE 1)
NPresets == NormalIn(Len(slots))
\* the slot behind the p-th listed preset, and the number in its name
SlotOf(p) == CHOOSE s \in 1..Len(slots) : ~slots[s].e /\ NormalIn(s) = p
Number(p) == IF Legacy THEN SlotOf(p) ELSE p
Known(p) == p >= 1 /\ p <= NPresets
\* c: [c, k, b, hue, sat, ct]
Run(c) ==
  /\ c.c = "effect" /\ HasEff /\ c.k \in 1..cfg.n
  /\ \E b \in IF c.b # No THEN {c.b} ELSE IF cfg.kind = "istrip" THEN {cfg.dflt[c.k]} ELSE IF eff.k = Custom THEN {eff.bri, lamp.bri} ELSE {Bri} :
     IF cfg.kind = "rules" THEN rules' = [rules EXCEPT ![c.k] = b] /\ eff' = [k |-> c.k, bri |-> 0]
        ELSE eff' = [k |-> c.k, bri |-> b] /\ UNCHANGED rules
  /\ UNCHANGED <<cfg, lamp, slots>>
Stop(c) == HasEff /\ (c.c = "effect" \/ (c.c = "ebri" /\ c.b = 0 /\ cfg.kind = "sstrip")) /\ c.k = 0 /\ eff' = Stopped /\ UNCHANGED <<cfg, lamp, rules, slots>>
RunCustom(c) == c.c = "custom" /\ cfg.kind \in {"sstrip", "istrip"} /\ eff' = [k |-> Custom, bri |-> c.b] /\ UNCHANGED <<cfg, lamp, rules, slots>>
\* through the effect module, for a running effect
EffBri(c) == /\ c.c = "ebri" /\ c.b > 0 /\ cfg.kind \in {"rules", "sstrip"} /\ eff.k > 0
             /\ IF cfg.kind = "rules" THEN rules' = [rules EXCEPT ![eff.k] = c.b] /\ UNCHANGED eff ELSE eff' = [eff EXCEPT !.bri = c.b] /\ UNCHANGED rules
             /\ UNCHANGED <<cfg, lamp, slots>>
\* through the light
LightBri(c) == /\ c.c = "bri" /\ eff.k >= 0
               /\ IF eff.k = 0 THEN lamp' = [lamp EXCEPT !.bri = c.b] /\ UNCHANGED <<eff, rules>>
                  ELSE lamp' = (IF cfg.kind = "istrip" THEN [lamp EXCEPT !.bri = c.b] ELSE lamp) /\ (IF cfg.kind = "rules" THEN rules' = [rules EXCEPT ![eff.k] = c.b] /\ UNCHANGED eff ELSE eff' = [eff EXCEPT !.bri = c.b] /\ UNCHANGED rules)
               /\ UNCHANGED <<cfg, slots>>
Apply(c) == /\ c.c = "preset" /\ eff.k = 0 /\ (c.k = 0 \/ Known(c.k))
            /\ lamp' = IF c.k = 0 THEN [lamp EXCEPT !.bri = 100, !.hue = IF cfg.color THEN 0 ELSE @, !.sat = IF cfg.color THEN 0 ELSE @]
                       ELSE LET s == slots[SlotOf(c.k)]
                            IN [bri |-> s.bri, hue |-> IF cfg.color THEN s.hue ELSE lamp.hue, sat |-> IF cfg.color THEN s.sat ELSE lamp.sat,
                                ct |-> IF cfg.temp THEN s.ct ELSE lamp.ct]
            /\ UNCHANGED <<cfg, eff, rules, slots>>
Save(c) == /\ c.c = "save" /\ Known(c.k)
           /\ slots' = [slots EXCEPT ![SlotOf(c.k)] = [e |-> FALSE, bri |-> c.b, hue |-> IF cfg.bonly THEN No ELSE c.hue, sat |-> IF cfg.bonly THEN No ELSE c.sat,
                                                       ct |-> IF cfg.bonly THEN No ELSE c.ct]]
           /\ UNCHANGED <<cfg, lamp, eff, rules>>
Bad(c) == \/ c.c = "effect" /\ HasEff /\ ~(c.k \in 0..cfg.n)
          \/ c.c = "custom" /\ cfg.kind = "rules"
          \/ c.c = "preset" /\ c.k # 0 /\ ~Known(c.k)
          \/ c.c = "save" /\ ~Known(c.k)
Do(c) == Run(c) \/ Stop(c) \/ RunCustom(c) \/ EffBri(c) \/ LightBri(c) \/ Apply(c) \/ Save(c)
Reject(c) == Bad(c) /\ UNCHANGED svars
\* a refused start of a stored effect may already have changed its brightness, but never starts it
Matches(p) == LET s == slots[SlotOf(p)] IN s.bri = lamp.bri /\ (cfg.temp => s.ct = lamp.ct) /\ (cfg.color => s.hue = lamp.hue /\ s.sat = lamp.sat)
Active == IF \E p \in 1..NPresets : Matches(p) THEN CHOOSE p \in 1..NPresets : Matches(p) /\ \A q \in 1..(p - 1) : ~Matches(q) ELSE 0
\* v: [eff, running, ebri, bri, names, states, preset]; what is left open is -1
View(v) ==
  /\ HasEff => v.eff = eff.k
  /\ cfg.kind \in {"rules", "sstrip"} /\ eff.k >= 0 => v.running = (eff.k > 0)
  /\ HasEff /\ eff.k > 0 => v.ebri = Bri
  /\ eff.k >= 0 => v.bri = Bri
  /\ v.names = [p \in 1..NPresets |-> Number(p)]
  /\ v.states = [p \in 1..NPresets |-> LET s == slots[SlotOf(p)] IN <<s.bri, s.hue, s.sat, s.ct>>]
  /\ eff.k = 0 => v.preset = Active
=============================================================================
