------------------------------ MODULE ChoiceMC ------------------------------
EXTENDS Choice, TLC
CONSTANTS Full
VARIABLES src, n
mv == <<chvars, src, n>>
Replies == [kind : {"new"}, type : Families \cup {"SMART.UNKNOWN", "IOT.UNKNOWN"}, scheme : BOOLEAN, https : BOOLEAN, enc : Encs \cup {"", "FOO"}, sym : {"", "AES", "KLAP"},
            lv : {0, 2}, ets : {{}, {1, 2}, {3}}, port : {0, 4433}, sound : BOOLEAN]
Legacies == [kind : {"old"}, cam : BOOLEAN, type : {"", "IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "IOT.WEIRD"},
             mic : {"", "IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.WEIRD"}, dev : {"", "dimmer", "light", "other"}, kids : BOOLEAN, len : BOOLEAN]
None0 == [cam |-> FALSE, type |-> "IOT.SMARTPLUGSWITCH", mic |-> "", dev |-> "", kids |-> FALSE, len |-> FALSE]
MInit == cur = NoChoice /\ saved = NoP /\ n = 0 /\ src \in Replies \cup {s \in Legacies : (s.type = "IOT.IPCAMERA" => s.cam) /\ (s.type = "" \/ s.mic \in {"", s.type})} \* cameras wrap their answer
Body == IF src.kind = "old" THEN src ELSE [None0 EXCEPT !.type = src.type]
MFind == n = 0 /\ (IF src.kind = "new" THEN NewReply(src) ELSE LegacyReply(src)) /\ n' = 1 /\ UNCHANGED src
MSave == n = 1 /\ Save /\ n' = 2 /\ UNCHANGED src
MAgain == n = 2 /\ Again(Body) /\ n' = 3 /\ UNCHANGED src
MNext == MFind \/ MSave \/ MAgain
MSpec == MInit /\ [][MNext]_mv
\* what is found is complete, or reported
Total == n >= 1 => (cur.res = "dev" => cur.cls # "" /\ cur.p # "" /\ cur.t # "") /\ cur.res \in {"dev", "unsup", "invalid"}
\* the way back leads to the same choice
SameAgain == [][n = 2 => cur' = cur]_mv
\* an unknown combination is never guessed
NoGuess == (n >= 1 /\ src.kind = "new" /\ (EncOf(src) \notin Encs \/ src.type \notin Families \/ ~src.scheme)) => cur = Unsup
NoCam == (n >= 1 /\ src.kind = "old" /\ src.cam) => cur = Unsup
\* SMART devices never get a class of the legacy kind and the other way round
Kin == (n >= 1 /\ cur.res = "dev") => (Iot(cur.c.fam) <=> cur.cls \notin {"SmartDevice", "SmartCamDevice"})
\* same protocol family as class
ProtKin == (n >= 1 /\ cur.res = "dev") => (cur.p = "IotProtocol" <=> Iot(cur.c.fam))
CamKin == (n >= 1 /\ cur.res = "dev" /\ cur.cls = "SmartCamDevice") => cur.c.https
=============================================================================
