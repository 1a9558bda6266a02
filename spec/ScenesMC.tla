------------------------------- MODULE ScenesMC -------------------------------
EXTENDS Scenes
CONSTANTS MaxN
VARIABLES n, last
mv == <<svars, n, last>>
A == [bri |-> 50, hue |-> 10, sat |-> 20, ct |-> 0]
B == [bri |-> 50, hue |-> 0, sat |-> 0, ct |-> 3000]
C == [bri |-> 80, hue |-> 10, sat |-> 20, ct |-> 0]
Slot(x, bo) == [e |-> FALSE, bri |-> x.bri, hue |-> IF bo THEN No ELSE x.hue, sat |-> IF bo THEN No ELSE x.sat, ct |-> IF bo THEN No ELSE x.ct]
ESlot == [e |-> TRUE, bri |-> 100, hue |-> No, sat |-> No, ct |-> No]
Kinds == [kind : {"sstrip", "istrip"}, color : {TRUE}, temp : BOOLEAN, bonly : {FALSE}] \cup [kind : {"rules"}, color : {TRUE}, temp : {TRUE}, bonly : {FALSE}]
         \cup [kind : {"smart"}, color : {FALSE}, temp : {FALSE}, bonly : {TRUE}] \cup {[kind |-> "iot", color |-> FALSE, temp |-> t, bonly |-> FALSE] : t \in BOOLEAN}
         \cup {[kind |-> "iot", color |-> TRUE, temp |-> TRUE, bonly |-> FALSE]}
Arr(k) == IF k.kind = "smart" THEN {<<Slot(A, TRUE), Slot(C, TRUE)>>}
          ELSE IF k.kind \in {"sstrip", "istrip"} THEN {<<Slot(C, FALSE), Slot(A, FALSE), Slot(B, FALSE)>>, <<ESlot, Slot(A, FALSE), ESlot, Slot(B, FALSE)>>, <<Slot(B, FALSE), ESlot, Slot(C, FALSE)>>}
          ELSE {<<Slot(A, FALSE), Slot(B, FALSE), Slot(C, FALSE)>>}
MInit == /\ \E k \in Kinds : cfg = [kind |-> k.kind, color |-> k.color, temp |-> k.temp, bonly |-> k.bonly, n |-> 2, dflt |-> <<100, 60>>] /\ slots \in Arr(k)
         /\ lamp \in {A, C} /\ rules = <<33, 44>>
         /\ eff \in IF HasEff THEN {Stopped, [k |-> 1, bri |-> IF cfg.kind = "rules" THEN 0 ELSE 70]} ELSE {Stopped}
         /\ n = 0 /\ last = [c |-> "none", k |-> 0, before |-> <<lamp, eff, rules, slots>>]
Z == [hue |-> No, sat |-> No, ct |-> No]
Cmd(c, k, b, x) == [c |-> c, k |-> k, b |-> b, hue |-> x.hue, sat |-> x.sat, ct |-> x.ct]
Cmds == {Cmd("effect", k, b, Z) : k \in {-2, 1, 2}, b \in {No, 30}} \cup {Cmd("effect", 0, No, Z), Cmd("custom", 0, 90, Z), Cmd("ebri", 0, 0, Z)}
        \cup {Cmd("ebri", 0, 25, Z), Cmd("bri", 0, 15, Z)} \cup {Cmd("preset", k, No, Z) : k \in {-2, 0, 1, 2, 3}} \cup {Cmd("save", k, x.bri, x) : k \in {-2, 1, 2, 3}, x \in {B, C}}
MDo(c) == Do(c) /\ last' = [c |-> c.c, k |-> c.k, before |-> <<lamp, eff, rules, slots>>] /\ n' = n + 1
MReject(c) == Reject(c) /\ last' = [c |-> "rejected", k |-> 0, before |-> <<lamp, eff, rules, slots>>] /\ n' = n + 1
MNext == n < MaxN /\ \E c \in Cmds : MDo(c) \/ MReject(c)
MSpec == MInit /\ [][MNext]_mv
Untouched == last.c = "rejected" => <<lamp, eff, rules, slots>> = last.before
RunsSelected == last.c = "effect" => eff.k = last.k
\* saving changes one slot, and never one that holds an effect
OneSlot == last.c = "save" => \A s \in 1..Len(slots) : (last.before[4][s].e \/ NormalIn(s) # last.k) => slots[s] = last.before[4][s]
SavedListed == last.c = "save" => NPresets = Len(SelectSeq(last.before[4], LAMBDA s : ~s.e))
\* applying a preset makes it (or an earlier, identical one) the active one
Applied == (last.c = "preset" /\ last.k > 0) => Active > 0 /\ Active <= last.k
EffectsApart == last.c \in {"preset", "save"} => <<eff, rules>> = <<last.before[2], last.before[3]>>
=============================================================================
