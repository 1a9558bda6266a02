----------------------------- MODULE ConnectMC -----------------------------
EXTENDS Connect
CONSTANTS N, Mode
K == {<<i>> : i \in 1..N}
VARIABLES nopen, result
mv == <<cvars, nopen, result>>
MInit == /\ \E ft \in [K -> {"ok", "fail", "maybe"}], c \in BOOLEAN :
              IF Mode = "all" THEN CInit("all", K, ft, c) ELSE \E ks \in {{}} \cup {{k} : k \in K} : CInit("one", ks, ft, FALSE)
         /\ nopen = 0 /\ result = "none"
U == UNCHANGED <<nopen, result>>
\* the library: attempts in some order, each opening a connection and closing it when it failed or everything is over
MUse == ph = "run" /\ open = {} /\ nopen = 0 /\ (\E k \in K : Use(k)) /\ nopen' = 1 /\ UNCHANGED result
MOpen == nopen = 1 /\ cur # <<>> /\ Open(1) /\ nopen' = 2 /\ UNCHANGED result
Failing == nopen > 0 /\ cur # <<>> /\ fate[cur] # "ok"
MReport == mode = "all" /\ nopen > 0 /\ cur # <<>> /\ \E g \in BOOLEAN : Reported(cur, g) /\ U
MClose == /\ (gone \/ (ph = "run" /\ nopen = 2 /\ (mode = "all" \/ Failing) /\ (cb => cur \in tried))
              \/ ph = "ok") /\ Close(1) /\ nopen' = 3 /\ UNCHANGED result
MNext1 == (nopen = 3 \/ nopen = 1) /\ open = {} /\ cur # <<>> /\ Next(cur) /\ nopen' = 0 /\ UNCHANGED result
MFound == (mode = "one" \/ open = {}) /\ nopen # 0 /\ (mode = "one" => nopen # 3) /\ cur # <<>> /\ Found(cur) /\ result' = "dev" /\ UNCHANGED nopen
MNothing == Nothing /\ result' = "none found" /\ UNCHANGED nopen
MUnsup == Unsupported /\ result' = "unsup" /\ UNCHANGED nopen
MFail == Fail /\ nopen # 2 /\ result' = "err" /\ UNCHANGED nopen
MGone == Gone /\ U
MAgain == ph = "ok" /\ open = {} /\ Open(1) /\ nopen' = 2 /\ UNCHANGED result
MNext == MUse \/ MOpen \/ MReport \/ MClose \/ MNext1 \/ MFound \/ MNothing \/ MUnsup \/ MFail \/ MGone \/ MAgain
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(MUse \/ MOpen \/ MReport \/ (ph = "run" /\ MClose) \/ MNext1 \/ MFound \/ MNothing \/ MUnsup \/ MFail)
Ends == <>(ph # "run")
\* nothing stays open unless a device was returned
NoLeak == ph = "end" => open = {}
AllTried == result = "none found" => tried = kinds
OneOpen == Cardinality(open) <= 1
\* a device is only returned when its kind works, and all kinds tried before did not
FirstWins == result = "dev" /\ cb => \A k \in tried \ {cur} : fate[k] = "fail"
\* the table: every kind is known for at least one way to connect
TableSane == /\ Cardinality(Kinds) = 7
             /\ \A f \in Families, e \in Encs, h \in BOOLEAN : ProtoOf(f, e, h, TRUE) # None => ProtoOf(f, e, h, TRUE) = ProtoOf(f, e, h, FALSE)
=============================================================================
