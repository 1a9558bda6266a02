----------------------------- MODULE SettingsTrace -----------------------------
EXTENDS Settings, TraceLib
TraceInit == TLInit /\ cfg = Tr.cfg /\ s = Tr.s
C == Ev.cmd
TraceNext ==
  \* ok: no error; sent: commands sent; rest: everything else the device holds is as it was
  \/ IsEvent("cmd") /\ Ev.rest
     /\ IF Ev.refused /\ Ev.sent > 0 THEN ~Ev.ok /\ UNCHANGED svars
        ELSE IF Fits(C) THEN Do(C) /\ Ev.ok
        ELSE Reject(C) /\ ~Ev.ok /\ Ev.sent = 0
  \* the stand-in's own settings
  \/ IsEvent("held") /\ Ev.s = s /\ UNCHANGED svars
  \/ IsEvent("view") /\ Ev.v = View /\ UNCHANGED svars
  \* what the features report: the same
  \/ IsEvent("feat") /\ (\A f \in DOMAIN Ev.v : Ev.v[f] = View[f]) /\ UNCHANGED svars
  \* somebody else changes the settings
  \/ IsEvent("other") /\ s' = Ev.s /\ UNCHANGED cfg
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
=============================================================================
