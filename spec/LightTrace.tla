------------------------------ MODULE LightTrace ------------------------------
EXTENDS Light, TraceLib
TraceInit == TLInit /\ cfg = Tr.cfg /\ lamp = Tr.lamp
C == Ev.cmd
TraceNext ==
  \/ IsEvent("cmd") /\ IF Ev.refused /\ Ev.sent > 0 THEN Refused /\ ~Ev.ok
                       ELSE IF Fits(C) THEN Do(C) /\ Ev.ok
                       ELSE IF C.c = "state" /\ StateOff(C) THEN Moot(C) /\ (~Ev.ok => lamp' = lamp) /\ (Ev.ok => lamp' = Off)
                       ELSE Reject(C) /\ ~Ev.ok /\ (~Sound(C) => Ev.sent = 0)
  \* the stand-in's own state, for comparison
  \/ IsEvent("lamp") /\ Ev.lamp = lamp /\ UNCHANGED lvars
  \/ IsEvent("view") /\ Ev.v = View /\ UNCHANGED lvars
  \* somebody else uses the lamp
  \/ IsEvent("other") /\ lamp' = Ev.lamp /\ UNCHANGED cfg
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, tid, l>>
=============================================================================
