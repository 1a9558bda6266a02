------------------------------- MODULE Select -------------------------------
(* Which protocol, transport and device class belong to which connection     *)
(* parameters (decision table).                                              *)
EXTENDS Naturals, Sequences, FiniteSets
Families == {"IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG",
             "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC",
             "SMART.TAPOCHIME", "SMART.TAPODOORBELL"}
Encs == {"KLAP", "AES", "XOR"}
Iot(f) == f \in {"IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA"}
None == <<"", "">>
\* <<protocol, transport>>; strict: the encryption has to be the one the family really uses
ProtoOf(f, enc, https, strict) ==
  CASE f \in {"SMART.IPCAMERA", "SMART.TAPODOORBELL"} -> IF strict /\ enc # "AES" THEN None ELSE <<"SmartCamProtocol", "SslAesTransport">>
    [] f = "IOT.IPCAMERA" -> IF strict /\ enc # "XOR" THEN None ELSE <<"IotProtocol", "LinkieTransportV2">>
    [] f = "SMART.TAPOROBOVAC" /\ enc = "AES" -> <<"SmartProtocol", "SslTransport">>
    [] Iot(f) /\ ~https /\ enc = "XOR" -> <<"IotProtocol", "XorTransport">>
    [] Iot(f) /\ ~https /\ enc = "KLAP" -> <<"IotProtocol", "KlapTransport">>
    [] ~Iot(f) /\ enc = "KLAP" -> <<"SmartProtocol", "KlapTransportV2">>
    [] ~Iot(f) /\ enc = "AES" /\ ~https -> <<"SmartProtocol", "AesTransport">>
    [] ~Iot(f) /\ enc = "AES" /\ https -> <<"SmartCamProtocol", "SslAesTransport">>
    [] OTHER -> None
\* device class by family; anything else of the SMART family falls back to the generic class
KnownClass(f, https) ==
  CASE https /\ f \in {"SMART.TAPOHUB", "SMART.IPCAMERA", "SMART.TAPODOORBELL"} -> "SmartCamDevice"
    [] https /\ f = "SMART.TAPOROBOVAC" -> "SmartDevice"
    [] ~https /\ f \in {"SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.KASAPLUG", "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.KASASWITCH"} -> "SmartDevice"
    [] ~https /\ f = "IOT.SMARTPLUGSWITCH" -> "IotPlug"
    [] ~https /\ f = "IOT.SMARTBULB" -> "IotBulb"
    [] OTHER -> ""
ClassOf(f, https, smart) == IF KnownClass(f, https) # "" THEN KnownClass(f, https) ELSE IF smart THEN "SmartDevice" ELSE ""
\* the families tried when nothing is known about a host
MainFamilies == {"SMART.TAPOPLUG", "IOT.SMARTPLUGSWITCH", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "IOT.IPCAMERA"}
Kinds == {<<ProtoOf(f, e, h, TRUE)[1], ProtoOf(f, e, h, TRUE)[2], KnownClass(f, h), h>> :
            <<f, e, h>> \in {x \in MainFamilies \X Encs \X BOOLEAN : ProtoOf(x[1], x[2], x[3], TRUE) # None /\ KnownClass(x[1], x[3]) # ""}}
=============================================================================
