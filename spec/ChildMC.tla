------------------------------ MODULE ChildMC ------------------------------
EXTENDS Child
CONSTANTS NC, NM, MaxRetry, MaxQ
VARIABLES tok
mv == <<cvars, tok>>
MInit == CInit /\ tok = 0
U == UNCHANGED tok
MSS == {<<1>>, <<2>>} \cup (IF NM > 2 THEN {<<2, 1>>, <<1, 2, 3>>} ELSE {<<1, 2>>})
MCall == Len(cq) < MaxQ /\ \E ch \in 0..NC, ms \in MSS, n \in 0..MaxRetry : Call(ch, ms, n) /\ U
MSend == order # <<>> /\ Send(Head(order), cq[Head(order)].ch, cq[Head(order)].ms) /\ U
MEnv == (\E c \in {"conn", "retryable", "device"} : EnvFail(c)) /\ U
MChildFail == (\E c \in {"retryable", "device"} : ChildFail(c)) /\ U
Item(m, e) == IF e THEN [m |-> m, k |-> "code", tok |-> 0, c |-> "device"] ELSE [m |-> m, k |-> "val", tok |-> tok + m, c |-> "none"]
MAnswer == /\ air # 0 /\ tok' = tok + 10
           /\ \E j \in 0..Len(cq[air].ms) : \E e \in 0..j :
                Answer([i \in 1..j |-> Item(cq[air].ms[i], i = e)])
MOk == order # <<>> /\ Ok(Head(order), cq[Head(order)].res) /\ U
MErr == order # <<>> /\ Err(Head(order), cq[Head(order)].cls) /\ U
Progress == MSend \/ MEnv \/ MChildFail \/ MAnswer \/ MOk \/ MErr
MNext == MCall \/ Progress
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
Drains == []<>(order = <<>>)
\* an exchange carries the id and the requests of the query it belongs to
Routed == [][air = 0 /\ air' # 0 => cq'[air'].ch = cq[air'].ch /\ cq'[air'].ms = cq[air'].ms]_mv
=============================================================================
