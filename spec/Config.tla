------------------------------- MODULE Config -------------------------------
(* A device configuration: what is exported, what a reload yields, and how   *)
(* a configuration connects (as a function of its fields).                   *)
EXTENDS Select
\* fields: host, timeout (0: unset), port (0: unset), cred, hash ("none", or whose credentials), batch (0: unset), keys,
\* fam, enc, login (0: unset), https, hport (0: unset)
Users == {"A", "B", "blank"}
Devices == {"A", "B", "blank", "kasa", "kasacamera", "tapo", "tapocamera"}   \* whose credentials a device knows
Has(c) == ProtoOf(c.fam, c.enc, c.https, FALSE) # None
Proto(c) == ProtoOf(c.fam, c.enc, c.https, FALSE)[1]
Trans(c) == ProtoOf(c.fam, c.enc, c.https, FALSE)[2]
Klap(c) == Trans(c) \in {"KlapTransport", "KlapTransportV2"}
\* export options: "plain" | "exclude" | "drop" (a blank hash) | "own" (the hash the device's connection reports) | "other" (a given hash)
\* the hash reported by a connection
OwnHash(c) ==
  LET id == IF c.cred # "none" THEN c.cred ELSE IF c.hash # "none" THEN c.hash ELSE "blank" IN
  CASE Trans(c) = "XorTransport" -> "none"
    [] Trans(c) = "LinkieTransportV2" -> "kasacamera"
    [] Trans(c) = "SslTransport" -> id
    [] OTHER -> IF id = "blank" THEN "none" ELSE id
Export(c, opt, x) ==
  CASE opt = "plain" -> c
    [] opt = "exclude" -> [c EXCEPT !.cred = "none"]
    [] opt = "drop" -> [c EXCEPT !.cred = "none", !.hash = "none"]
    [] opt = "own" -> IF OwnHash(c) = "none" THEN (IF x = "" THEN c ELSE [c EXCEPT !.cred = "none"]) ELSE [c EXCEPT !.cred = "none", !.hash = OwnHash(c)]
    [] opt = "other" -> [c EXCEPT !.cred = "none", !.hash = x]
\* how it connects
Port(c) == IF c.port # 0 THEN c.port
           ELSE IF Trans(c) = "XorTransport" THEN 9999
           ELSE IF c.hport # 0 THEN c.hport
           ELSE CASE Trans(c) = "LinkieTransportV2" -> 10443 [] Trans(c) = "SslTransport" -> 4433 [] Trans(c) = "SslAesTransport" -> 443
                  [] Klap(c) /\ c.https -> 4433 [] OTHER -> 80
Scheme(c) == CASE Trans(c) = "XorTransport" -> "tcp" [] Trans(c) \in {"LinkieTransportV2", "SslTransport", "SslAesTransport"} -> "https"
               [] Klap(c) /\ c.https -> "https" [] OTHER -> "http"
Timeout(c) == IF c.timeout # 0 THEN c.timeout ELSE IF Trans(c) = "SslAesTransport" THEN 10 ELSE 5
Batch(c) == IF Proto(c) = "IotProtocol" THEN 0 ELSE IF c.batch # 0 THEN c.batch ELSE 5
\* whose credentials it uses
Ident(c) == CASE Trans(c) = "SslAesTransport" -> IF c.cred \notin {"none", "blank"} THEN c.cred ELSE c.hash
              [] OTHER -> IF c.cred # "none" THEN c.cred ELSE IF c.hash # "none" THEN c.hash ELSE "blank"
\* the devices it gets in with
Accepts(c) == CASE Trans(c) \in {"XorTransport", "LinkieTransportV2"} -> Devices
                [] Klap(c) -> {Ident(c), "blank", "kasa", "kasacamera", "tapo", "tapocamera"}
                [] Trans(c) \in {"AesTransport", "SslTransport"} -> {Ident(c), "tapo"}
                [] Trans(c) = "SslAesTransport" -> IF Ident(c) # "none" THEN {Ident(c)} ELSE {"tapocamera"}
Wire(c) == <<Proto(c), Trans(c), Scheme(c), c.host, Port(c), Timeout(c), Batch(c), Accepts(c) \cap Devices>>
\* once a connection was made the configuration names the timeout and the keys in use
Connected(c) == [c EXCEPT !.timeout = Timeout(c), !.keys = IF Trans(c) = "AesTransport" /\ @ = "none" THEN "gen" ELSE @]
\* secrets in clear
Clear(c) == c.cred \in {"A", "B"}
VARIABLES c, d     \* the configuration, the exported dictionary (as a configuration)
cfgvars == <<c, d>>
DoExport(opt, x) == d' = Export(c, opt, x) /\ UNCHANGED c
Reload == c' = d /\ UNCHANGED d
Connect == Has(c) /\ c' = Connected(c) /\ UNCHANGED d
=============================================================================
