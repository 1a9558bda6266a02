-------------------------------- MODULE Redact --------------------------------
(* What of a device's answer may reach the debug log while redaction is on.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* per family of answers: field -> what must not be shown: "all" of it, or its "head" (identifiers may keep
\* their tail, to tell devices apart)
Iot == [deviceId |-> "head", alias |-> "all", mac |-> "tail", mic_mac |-> "tail", ssid |-> "all", oemId |-> "head", hwId |-> "head", username |-> "all",
        latitude |-> "all", longitude |-> "all", latitude_i |-> "all", longitude_i |-> "all"]
Smart == [device_id |-> "head", parent_device_id |-> "head", original_device_id |-> "head", nickname |-> "all", mac |-> "tail", ssid |-> "all", bssid |-> "all",
          oem_id |-> "head", hw_id |-> "head", fw_id |-> "head", setup_code |-> "all", setup_payload |-> "all", mfi_setup_code |-> "all", mfi_setup_id |-> "all",
          mfi_token_token |-> "all", mfi_token_uuid |-> "all", dev_id |-> "head", ext_addr |-> "head", device_name |-> "all", device_alias |-> "all", alias |-> "all",
          board_sn |-> "all", custom_sn |-> "all", location |-> "all", map_data |-> "all", map_name |-> "all", latitude |-> "all", longitude |-> "all", la |-> "all", lo |-> "all"]
New == [device_id |-> "head", device_name |-> "all", owner |-> "head", mac |-> "tail", master_device_id |-> "head", group_id |-> "head", group_name |-> "all",
        connect_ssid |-> "all"]
Secret(fam) == IF fam = "iot" THEN Iot ELSE IF fam = "new" THEN New ELSE Smart
\* trees of answers: [t |-> "leaf", v], [t |-> "map", k, v] (sequences of keys and of trees), [t |-> "list", v] (sequence of trees)
Hidden == [t |-> "leaf", v |-> "hidden"]
RECURSIVE Mask(_, _)
Mask(fam, x) ==
  IF x.t = "leaf" THEN x
  ELSE IF x.t = "list" THEN [x EXCEPT !.v = [i \in DOMAIN @ |-> Mask(fam, @[i])]]
  ELSE [x EXCEPT !.v = [i \in DOMAIN @ |-> IF x.k[i] \in DOMAIN Secret(fam) THEN Hidden ELSE Mask(fam, @[i])]]
\* the leaves of a tree with the keys that lead to them
RECURSIVE Leaves(_)
Leaves(x) == IF x.t = "leaf" THEN {[p |-> <<>>, v |-> x.v]}
             ELSE UNION {{[p |-> (IF x.t = "map" THEN <<x.k[i]>> ELSE <<>>) \o y.p, v |-> y.v] : y \in Leaves(x.v[i])} : i \in DOMAIN x.v}
Under(fam, p) == {i \in DOMAIN p : p[i] \in DOMAIN Secret(fam)}
\* the log: leaves that were written to it; on: redaction is on
VARIABLES on, logged, given
rvars == <<on, logged, given>>
RInit == on = TRUE /\ logged = {} /\ given = <<>>
Switch(b) == on' = b /\ UNCHANGED <<logged, given>>
\* an answer is logged and given to the caller
Answer(fam, x) == /\ logged' = logged \cup {[fam |-> fam, on |-> on, p |-> y.p, v |-> y.v] : y \in Leaves(IF on THEN Mask(fam, x) ELSE x)}
                  /\ given' = x /\ UNCHANGED on
=============================================================================
