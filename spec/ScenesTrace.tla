------------------------------ MODULE ScenesTrace ------------------------------
EXTENDS Scenes, TraceLib
TraceInit == TLInit /\ cfg = Tr.cfg /\ lamp = Tr.lamp /\ eff = Tr.eff /\ rules = Tr.rules /\ slots = Tr.slots
C == Ev.cmd
HalfStarted == IF cfg.kind = "rules" /\ C.c = "effect" /\ C.k > 0 THEN UNCHANGED <<cfg, lamp, eff, slots>> /\ (rules' = rules \/ rules' = [rules EXCEPT ![C.k] = Or(C.b, Bri)])
               ELSE UNCHANGED svars
TraceNext ==
  \/ IsEvent("cmd") /\ IF Bad(C) THEN Reject(C) /\ ~Ev.ok /\ Ev.sent = 0
                       ELSE IF Ev.refused THEN ~Ev.ok /\ HalfStarted
                       ELSE Do(C) /\ Ev.ok /\ Ev.exact
  \* the stand-in's own state
  \/ IsEvent("held") /\ Ev.lamp = lamp /\ Ev.eff = eff /\ Ev.rules = rules /\ Ev.slots = slots /\ Ev.rest /\ UNCHANGED svars
  \/ IsEvent("view") /\ View(Ev.v) /\ Ev.same /\ UNCHANGED svars
  \/ IsEvent("other") /\ lamp' = Ev.lamp /\ eff' = Ev.eff /\ rules' = Ev.rules /\ slots' = Ev.slots /\ UNCHANGED cfg
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
=============================================================================
