------------------------------- MODULE Choice -------------------------------
(* From what a device says about itself to connection parameters, protocol,  *)
(* transport, device class and kind of device; and the same again from a     *)
(* saved configuration.                                                      *)
EXTENDS Select, Integers
VARIABLES cur, saved
chvars == <<cur, saved>>
NoP == [fam |-> "", enc |-> "", login |-> 0, https |-> FALSE, hport |-> 0]
NoChoice == [res |-> "none", cls |-> "", p |-> "", t |-> "", c |-> NoP]
\* names of families the library has no entry for
SmartName(f) == f \in {"SMART.UNKNOWN", "SMART.TAPOFOO"} \/ (f \in Families /\ ~Iot(f))
\* r: [type, scheme, https, enc, sym, lv, ets, port, sound]; "" / 0 / {} stand for "not given"
EncOf(r) == IF r.enc # "" THEN r.enc ELSE r.sym
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LoginOf(r) == IF r.lv # 0 THEN r.lv ELSE IF r.ets # {} THEN MaxOf(r.ets) ELSE 0
Usable(r) == /\ r.sound /\ r.scheme /\ EncOf(r) \in Encs /\ r.type \in Families
             /\ ClassOf(r.type, r.https, SmartName(r.type)) # "" /\ ProtoOf(r.type, EncOf(r), r.https, FALSE) # None
ParamsOf(r) == [fam |-> r.type, enc |-> EncOf(r), login |-> LoginOf(r), https |-> r.https, hport |-> r.port]
Choice(res, cls, c, strict) == LET pt == ProtoOf(c.fam, c.enc, c.https, strict) IN [res |-> res, cls |-> cls, p |-> pt[1], t |-> pt[2], c |-> c]
Unsup == [NoChoice EXCEPT !.res = "unsup"]
Invalid == [NoChoice EXCEPT !.res = "invalid"]
OfReply(r) == IF Usable(r) THEN Choice("dev", ClassOf(r.type, r.https, SmartName(r.type)), ParamsOf(r), FALSE) ELSE Unsup
\* legacy answers: [cam, type, mic, dev, kids, len]
TypeOf(s) == IF s.type # "" THEN s.type ELSE s.mic
LegacyClass(s) ==
  CASE s.dev = "dimmer" -> "IotDimmer"
    [] TypeOf(s) = "IOT.SMARTPLUGSWITCH" /\ s.kids -> "IotStrip"
    [] TypeOf(s) = "IOT.SMARTPLUGSWITCH" /\ s.dev = "light" -> "IotWallSwitch"
    [] TypeOf(s) = "IOT.SMARTBULB" /\ s.len -> "IotLightStrip"
    [] TypeOf(s) = "IOT.SMARTBULB" -> "IotBulb"
    [] OTHER -> "IotPlug"
XorP(f) == [NoP EXCEPT !.fam = f, !.enc = "XOR"]
\* found by a legacy broadcast: the type becomes part of the parameters, so it has to be a known one
OfLegacy(s) == CASE s.cam -> Unsup
                 [] TypeOf(s) \notin Families -> Invalid
                 [] OTHER -> Choice("dev", LegacyClass(s), XorP(TypeOf(s)), FALSE)
\* connected to directly: whatever answers the legacy protocol is one, of the class its answer tells
OfConnect(s, c) == CASE s.cam -> Unsup
                     [] TypeOf(s) = "" -> Invalid
                     [] OTHER -> Choice("dev", LegacyClass(s), c, FALSE)
\* from parameters alone
OfParams(c, s) == LET pt == ProtoOf(c.fam, c.enc, c.https, FALSE)
                      cls == ClassOf(c.fam, c.https, SmartName(c.fam)) IN
  CASE pt = None -> Unsup
    [] pt[2] = "XorTransport" -> OfConnect(s, c)
    [] cls = "" -> Unsup
    [] OTHER -> Choice("dev", cls, c, FALSE)
NewReply(r) == cur' = OfReply(r) /\ UNCHANGED saved
LegacyReply(s) == cur' = OfLegacy(s) /\ UNCHANGED saved
Save == cur.res = "dev" /\ saved' = cur.c /\ UNCHANGED cur
Again(s) == saved # NoP /\ cur' = OfParams(saved, s) /\ UNCHANGED saved
(* kind of device (shown to the user), from family and components *)
KindOf(f, comps) ==
  CASE f \in {"SMART.TAPOHUB", "SMART.KASAHUB"} -> "hub"
    [] f \in {"SMART.TAPOPLUG", "SMART.KASAPLUG"} -> IF "child_device" \in comps THEN "strip" ELSE "plug"
    [] "light_strip" \in comps -> "lightstrip"
    [] f \in {"SMART.TAPOSWITCH", "SMART.KASASWITCH"} /\ "child_device" \in comps -> "wallswitch"
    [] "dimmer_calibration" \in comps -> "dimmer"
    [] "brightness" \in comps -> "bulb"
    [] f \in {"SMART.TAPOSWITCH", "SMART.KASASWITCH"} -> "wallswitch"
    [] f = "SMART.TAPOSENSOR" -> "sensor"
    [] f = "SMART.KASAENERGY" -> "thermostat"
    [] f = "SMART.TAPOROBOVAC" -> "vacuum"
    [] f = "SMART.TAPOCHIME" -> "chime"
    [] OTHER -> "plug"
CamKind(f) == IF f = "SMART.TAPOHUB" THEN "hub" ELSE IF f = "SMART.TAPODOORBELL" THEN "doorbell" ELSE "camera"
ChildKind(cat) ==
  CASE cat = "plug.powerstrip.sub-plug" -> "plug"
    [] cat = "subg.plugswitch.switch" -> "wallswitch"
    [] cat \in {"subg.trigger.contact-sensor", "subg.trigger.temp-hmdt-sensor", "subg.trigger.water-leak-sensor", "subg.trigger.motion-sensor",
                "subg.trigger.button"} -> "sensor"
    [] cat = "kasa.switch.outlet.sub-fan" -> "fan"
    [] cat = "kasa.switch.outlet.sub-dimmer" -> "dimmer"
    [] cat = "subg.trv" -> "thermostat"
    [] OTHER -> "unknown"
LegacyKind(cls) == CASE cls = "IotPlug" -> "plug" [] cls = "IotStrip" -> "strip" [] cls = "IotWallSwitch" -> "wallswitch" [] cls = "IotDimmer" -> "dimmer"
                     [] cls = "IotLightStrip" -> "lightstrip" [] cls = "IotBulb" -> "bulb" [] OTHER -> "unknown"
=============================================================================
