------------------------------ MODULE QueryMC ------------------------------
(* Exhaustive model of Query for small constants: several callers, every     *)
(* outcome, every cancellation point.  Tokens are abstracted by the exchange *)
(* number so that "own answer" is checked against the caller.                *)
EXTENDS Query
CONSTANTS Callers, MaxRetry, MaxNeed, Family
VARIABLES left,     \* calls each caller may still issue
          last      \* caller -> outcome of its last query (ownership check)

mvars == <<qvars, left, last>>
Classes == {"conn", "retryable", "timeout", "auth", "device", "kasa"}

MInit == QInit(Family) /\ left = [c \in Callers |-> 1] /\ last = [c \in Callers |-> [k |-> "none", v |-> <<>>]]

MCall(c) == /\ left[c] > 0 /\ c \notin DOMAIN prog
            /\ \E r \in 0..MaxRetry, n \in 1..MaxNeed : Call(c, r, n, clock)
            /\ left' = [left EXCEPT ![c] = @ - 1] /\ UNCHANGED last
\* the answer token names its caller, so a foreign answer would be visible
MSend(c) == \E t \in {clock, due} : Send(c, t) /\ UNCHANGED <<left, last>>
MAnswer(c) == Answer(c, <<c, Len(got) + 1>>, clock) /\ UNCHANGED <<left, last>>
MFail(c) == \E k \in Classes : Fail(c, k, 1, clock) /\ UNCHANGED <<left, last>>
MInterrupted(c) == Interrupted(c, clock) /\ UNCHANGED <<left, last>>
MReset == Reset(clock) /\ ~resetDone /\ UNCHANGED <<left, last>>
MCancel(c) == c \notin cancelled /\ Cancel(c, clock) /\ UNCHANGED <<left, last>>
MRetOk(c) == RetOk(c, got, clock) /\ last' = [last EXCEPT ![c] = [k |-> "ok", v |-> got]] /\ UNCHANGED left
MRetErr(c) == RetErr(c, err.class, err.tok, clock) /\ last' = [last EXCEPT ![c] = [k |-> "err", v |-> <<>>]] /\ UNCHANGED left
MRetCancelled(c) == RetCancelled(c, clock) /\ last' = [last EXCEPT ![c] = [k |-> "cancel", v |-> <<>>]] /\ UNCHANGED left

Progress == \/ \E c \in Callers : MSend(c) \/ MAnswer(c) \/ MFail(c) \/ MInterrupted(c)
                 \/ MRetOk(c) \/ MRetErr(c) \/ MRetCancelled(c)
            \/ MReset
MNext == Progress \/ \E c \in Callers : MCall(c) \/ MCancel(c)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Progress)

OwnAnswers == \A c \in Callers : \A i \in DOMAIN last[c].v : last[c].v[i] = <<c, i>>
EveryoneReturns == \A c \in Callers : (c \in DOMAIN prog) ~> (c \notin DOMAIN prog)
=============================================================================
