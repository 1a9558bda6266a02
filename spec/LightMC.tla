------------------------------- MODULE LightMC -------------------------------
EXTENDS Light
CONSTANTS MaxN
VARIABLES n, last
mv == <<lvars, n, last>>
Bs == {No, -2, 0, 1, 50, 100, 101}
Cmds == [c : {"on", "off"}, on : {No}, b : {No}, h : {No}, s : {No}, t : {No}]
        \cup [c : {"bri"}, on : {No}, b : Bs \ {No}, h : {No}, s : {No}, t : {No}]
        \cup [c : {"ct"}, on : {No}, b : {No, 40, 101}, h : {No}, s : {No}, t : {2499, 2500, 4000, 6500, 6501}]
        \cup [c : {"hsv"}, on : {No}, b : {No, 30, 101}, h : {-2, 0, 360, 361}, s : {-2, 0, 100, 101}, t : {No}]
        \cup [c : {"state"}, on : {No, 0, 1}, b : {No, 0, 1, 50, 101}, h : {No, 120}, s : {No, 70}, t : {No, 0, 3000}]
Cfgs == [kind : {"smart", "bulb", "strip"}, color : BOOLEAN, temp : BOOLEAN, lo : {2500}, hi : {6500}] \cup [kind : {"dimmer"}, color : {FALSE}, temp : {FALSE}, lo : {2500}, hi : {6500}]
MInit == cfg \in Cfgs /\ lamp \in [on : BOOLEAN, bri : {20}, hue : {10}, sat : {20}, ct : {0, 2700}] /\ n = 0 /\ last = [c |-> "none", before |-> lamp]
MDo(c) == Do(c) /\ last' = [c |-> c.c, cmd |-> c, before |-> lamp] /\ n' = n + 1
MReject(c) == Reject(c) /\ last' = [c |-> "rejected", before |-> lamp] /\ n' = n + 1
MNext == n < MaxN /\ \E c \in Cmds : MDo(c) \/ MReject(c)
MSpec == MInit /\ [][MNext]_mv
TypeOK == lamp.bri \in 1..100 /\ lamp.hue \in 0..360 /\ lamp.sat \in 0..100 /\ (lamp.ct = 0 \/ lamp.ct \in 2500..6500)
ZeroIsOff == (last.c = "bri" /\ last.cmd.b = 0) => ~lamp.on /\ lamp = [last.before EXCEPT !.on = FALSE]
Untouched == last.c = "rejected" => lamp = last.before
OnlyNamed == CASE last.c \in {"on", "off"} -> lamp = [last.before EXCEPT !.on = (last.c = "on")]
               [] last.c = "bri" -> lamp.hue = last.before.hue /\ lamp.sat = last.before.sat /\ lamp.ct = last.before.ct
               [] last.c = "ct" -> lamp.hue = last.before.hue /\ lamp.sat = last.before.sat /\ lamp.ct = last.cmd.t /\ (last.cmd.b = No => lamp.bri = last.before.bri)
               [] last.c = "hsv" -> lamp.hue = last.cmd.h /\ lamp.sat = last.cmd.s /\ lamp.ct = 0 /\ (last.cmd.b = No => lamp.bri = last.before.bri)
               [] OTHER -> TRUE
StateOn == last.c = "state" => (lamp.on <=> last.cmd.b # 0 /\ last.cmd.on # 0)
ReadBack == View.on = lamp.on /\ (lamp.on => View.st.bri = lamp.bri) /\ (View.val # No => View.val = View.bri)
=============================================================================
