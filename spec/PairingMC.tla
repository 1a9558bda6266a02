------------------------------ MODULE PairingMC ------------------------------
EXTENDS Pairing
CONSTANTS Ids, Sup, Shown, MaxCalls
VARIABLES last, calls
mv == <<pvars, last, calls>>
A(x) == last' = x /\ calls' = IF x \in {"pair", "unpair", "elsewhere", "near"} THEN calls + 1 ELSE calls
MNext == \/ calls < MaxCalls /\ (\E n \in SUBSET Ids : n # near /\ Near(n)) /\ A("near")
         \/ calls < MaxCalls /\ (\E k \in SUBSET Ids : k # kids /\ Elsewhere(k)) /\ A("elsewhere")
         \/ calls < MaxCalls /\ (\E w \in {0, 2} : Pair(w)) /\ A("pair")
         \/ (\E ok \in BOOLEAN : Scan(ok)) /\ A("scan")
         \/ (\E ok \in BOOLEAN : Ask(ok, Sup)) /\ A("ask")
         \/ (\E ok \in BOOLEAN, acc \in SUBSET Ids : Add(ok, found, acc)) /\ A("add")
         \/ (\E s \in SUBSET Ids : PairEnds(s, Shown)) /\ A("paired")
         \/ Failed /\ A("failed")
         \/ GiveUp /\ A("giveup")
         \/ calls < MaxCalls /\ (\E id \in Ids : Unpair(id)) /\ A("unpair")
         \/ (\E ok \in BOOLEAN : Remove(ok, found)) /\ A("remove")
         \/ UnpairEnds /\ A("unpaired")
         \/ known # kids /\ Update /\ A("update")
         \/ ph = "scan" /\ Tick(now + 1) /\ A("tick")
MInit == (\E k \in SUBSET Ids : PInit(k)) /\ last = "init" /\ calls = 0
MSpec == MInit /\ [][MNext]_mv
         /\ WF_mv((\E ok \in BOOLEAN : Scan(ok)) /\ A("scan")) /\ WF_mv((\E ok \in BOOLEAN : Ask(ok, Sup)) /\ A("ask")) /\ WF_mv((\E s \in SUBSET Ids : PairEnds(s, Shown)) /\ A("paired"))
         /\ WF_mv((\E ok \in BOOLEAN, acc \in SUBSET Ids : Add(ok, found, acc)) /\ A("add")) /\ WF_mv(Failed /\ A("failed")) /\ WF_mv(UnpairEnds /\ A("unpaired"))
         /\ WF_mv((\E ok \in BOOLEAN : Remove(ok, found)) /\ A("remove")) /\ WF_mv(ph = "scan" /\ Tick(now + 1) /\ A("tick"))
TypeOK == kids \subseteq Ids /\ known \subseteq Ids /\ found \subseteq Ids
OnlyDetected == [][last' = "add" => (kids' \ kids) \subseteq (found \cap Sup)]_mv
NoAddUnlessFound == [][last' = "add" => found # {} /\ now >= at + wait]_mv
OneRemoved == [][last' = "remove" => Cardinality(kids \ kids') <= 1 /\ kids' \subseteq kids]_mv
SeenAfter == [][last' \in {"unpaired", "update"} => known' = kids']_mv
Ends == (ph # "idle") ~> (ph = "idle")
=============================================================================
