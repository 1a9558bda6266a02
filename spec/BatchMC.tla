------------------------------ MODULE BatchMC ------------------------------
EXTENDS Batch
CONSTANTS NM, MaxRetry, BS, MaxQ, Cams
VARIABLES nq
mv == <<bvars, nq>>
Ms == 1..NM
\* method 1 is a list of 3 items in pages of 2, method NM cannot be batched
ListOf(m) == m = 1
MInit == (\E c \in Cams, b \in BS : BInit(c, b)) /\ nq = 0
U == UNCHANGED nq
MCall == nq < MaxQ /\ \E ms \in SUBSET Ms : \E n \in 0..MaxRetry :
           Call(ms, IF NM > 2 THEN ms \cap {NM} ELSE {}, n) /\ nq' = nq + 1
Val(m) == IF ListOf(m) THEN [m |-> m, k |-> "list", tok |-> 0, n |-> 2, total |-> 3, c |-> "none"]
          ELSE [m |-> m, k |-> "val", tok |-> 0, n |-> 0, total |-> 0, c |-> "none"]
Code(m) == [m |-> m, k |-> "code", tok |-> 0, n |-> 0, total |-> 0, c |-> "device"]
\* batches are taken in order, as the client does
NextBatch == LET rest == SetToSortSeq((asked \ force) \ S, <) IN SubSeq(rest, 1, IF Len(rest) < bs THEN Len(rest) ELSE bs)
MSendBatch == SendBatch(NextBatch) /\ U
MSendSingle == (\E m \in asked : SendSingle(m)) /\ U
MSendPage == (\E g \in got : SendPage(g.m, g.n, cam /\ bs > 1 /\ ~pmiss)) /\ U
\* the device answers the first j, the j-th possibly with an error, in either order
MAnsBatch == /\ phase = "wait" /\ flight.kind = "batch" /\ U
             /\ \E j \in 0..Len(flight.ms), e, rev \in BOOLEAN :
                  LET it == [x \in 1..j |-> IF x = j /\ e THEN Code(flight.ms[x]) ELSE Val(flight.ms[x])]
                  IN AnsBatch(IF rev THEN Reverse(it) ELSE it)
MAnsSingle == phase = "wait" /\ flight.kind = "single" /\ (AnsSingle(Val(flight.m)) \/ AnsSingle(Code(flight.m))) /\ U
MAnsPage == /\ phase = "wait" /\ flight.kind \in {"page", "pagebatch"} /\ U
            /\ \/ \E n \in 0..1 : AnsPage([m |-> flight.m, k |-> "list", tok |-> 0, n |-> n, total |-> 3, c |-> "none"])
               \/ AnsPage(Code(flight.m))
MAnsPageMissing == AnsPageMissing /\ U
MRefuse == (\E c \in {"nobatch", "device", "retryable"} : RefuseBatch(c)) /\ U
MFault == (\E c \in {"conn", "timeout", "kasa"} : Fault(c)) /\ U
MOk == Ok({Answer(g) : g \in got}) /\ U
MErr == Err(cls) /\ U
Progress == MSendBatch \/ MSendSingle \/ MSendPage \/ MAnsBatch \/ MAnsSingle \/ MAnsPage \/ MAnsPageMissing \/ MRefuse \/ MFault \/ MOk \/ MErr
MNext == MCall \/ Progress
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
Ends == phase # "idle" ~> phase = "idle"
\* nothing is sent twice within an attempt
SentOnce == [][/\ phase' = "wait" /\ phase = "open" /\ flight'.kind = "single" => flight'.m \notin ssent
               /\ phase' = "wait" /\ phase = "open" /\ flight'.kind = "batch" => ToSet(flight'.ms) \cap sent = {}]_mv
=============================================================================
