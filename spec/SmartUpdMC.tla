----------------------------- MODULE SmartUpdMC -----------------------------
EXTENDS SmartUpd
CONSTANTS MaxUpd, Steps, TableNo
VARIABLES n, touched
mv == <<uvars, n, touched>>
R(nm, ms, q1, int, kind, fst, opt) == [n |-> nm, ms |-> ms, q1 |-> q1, int |-> int, kind |-> kind, first |-> fst, opt |-> opt]
Tables == << << R("Dev", {Info, "usage"}, Info, 0, "device", TRUE, {}),
                R("Cloud", {"get_connect_cloud_state"}, "get_connect_cloud_state", 60000, "std", TRUE, {}),
                R("A", {"a"}, "a", 0, "std", FALSE, {}) >>,
             << R("Dev", {Info}, Info, 0, "device", TRUE, {}),
                R("B", {"b1", "b2"}, "b1", 60000, "std", FALSE, {"b2"}) >>,
             << R("A", {"a"}, "a", 0, "std", FALSE, {}), R("B", {"b"}, "b", 60000, "std", FALSE, {}), R("C", {}, "", 0, "std", FALSE, {}) >>,
             << R("Dev", {Info, "getConnectionType"}, Info, 0, "device", TRUE, {}), R("A", {"a", "b"}, "a", 0, "std", FALSE, {}) >> >>
MInit == UInit(Tables[TableNo], TableNo = 3, TableNo = 4) /\ n = 0 /\ touched = 0
U == UNCHANGED <<n, touched>>
Tok(x) == n
MUpdate == n < MaxUpd /\ (\E d \in Steps : Update(now + d)) /\ n' = n + 1 /\ UNCHANGED touched
Resp(ms) == [ms -> {n, -1}]
MNegoOk == (\E r \in Resp(NegoMs) : NegoOk(NegoMs, r)) /\ U
MNegoFail == NegoFail /\ U
MMainOk == ph = "main" /\ (\E r \in Resp(Wanted) : MainOk(Wanted, r)) /\ U
MMainFail == MainFail(Wanted) /\ U
MSingle == (\E x \in pend, t \in {n, -1} : Single(x, t)) /\ U
MNoQuery == NoQuery /\ U
MFinish == Finish /\ U
MRaise == Raise /\ U
MTouch == touched < 1 /\ neg /\ touched' = touched + 1 /\ (\E m \in M : Touch(m)) /\ UNCHANGED n
Progress == MNegoOk \/ MNegoFail \/ MMainOk \/ MMainFail \/ MSingle \/ MNoQuery \/ MFinish \/ MRaise
MNext == MUpdate \/ MTouch \/ Progress
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
Ends == ph # "idle" ~> ph = "idle"
\* an update only fails when the basic information could not be read
FailsOnlyForInfo == [][ph # "idle" /\ ph' = "idle" /\ st' # st =>
    (ecnt' = ecnt /\ lut' = lut) \/ child \/ first \/ ans[Info] # -1]_mv
\* after a successful update every module that was queried shows this update's answers or an error
Fresh == [][ph = "done" /\ ph' = "idle" /\ InfoOk =>
    \A m \in M : m \in Queried => (\A x \in mt[m].ms : st'[x] \in {n, -1})]_mv
\* one module's failure never changes another one's state
Isolated == [][ph = "done" /\ ph' = "idle" /\ InfoOk =>
    \A m \in M : (ecnt'[m] > ecnt[m]) => (m \in Queried /\ \E x \in mt[m].ms : ans[x] = -1)]_mv
Recovers == [][ph = "done" /\ ph' = "idle" /\ InfoOk =>
    \A m \in Queried : (\A x \in mt[m].ms : ans[x] # -1) => ecnt'[m] = 0]_mv
NotSooner == \A m \in M : ph = "main" /\ m \in Queried => lut[m] = -1 \/ now - lut[m] >= Interval(m)
KeepsData == [][\A x \in DOMAIN st : x \in DOMAIN st' /\ (st'[x] # st[x] => x \in DOMAIN ans \/ ph = "nego")]_mv
=============================================================================
