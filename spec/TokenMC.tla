------------------------------ MODULE TokenMC ------------------------------
EXTENDS Token
CONSTANTS MaxReq, MaxRetry, MaxLogin
VARIABLES nreq, refused, dead
mv == <<tvars, nreq, refused, dead>>
MInit == TInit("smart") /\ nreq = 0 /\ refused = {} /\ dead = {}
U == UNCHANGED <<nreq, refused, dead>>
Times == {clock, due, lastPost + SpaceMs, lastEnd + SpaceMs}
PostKinds == {"conn", "timeout", "payload", "http"}
Codes == {"auth", "retryable", "device"}
Dead == dead' = (IF cls' = "conn" THEN dead ELSE dead \cup {lg}) /\ UNCHANGED <<nreq, refused>>
MCall == nreq < MaxReq /\ \E n \in 0..MaxRetry : Call(nreq + 1, n, clock) /\ nreq' = nreq + 1 /\ UNCHANGED <<refused, dead>>
MLogin == nl < MaxLogin /\ \E t \in Times, w \in {"user", "default"} : Login(w, 0, t) /\ U
MLoginOk == LoginOk(nl, clock) /\ U
MLoginRefused == \E p \in {0, FallbackPause} : LoginRefused(p, clock) /\ refused' = refused \cup {nl} /\ UNCHANGED <<nreq, dead>>
MLoginRefused2 == LoginRefusedAgain(clock) /\ U
MLoginBad == /\ \/ \E k \in PostKinds : LoginBad(k, "-", clock)
                \/ \E c \in Codes : LoginBad("code", c, clock)
             /\ U
MReq == \E t \in Times : Req(cur, lg, t) /\ U
MReqOk == ReqOk(cur, clock) /\ U
MReqBad == ((\E k \in PostKinds : ReqBad(k, "-", clock)) \/ \E c \in Codes : ReqBad("code", c, clock)) /\ Dead
MOk == Ok(ans, clock) /\ U
MErr == Err(cls, clock) /\ U
MCancel == ~cancelled /\ Cancel(clock) /\ U
MCancelled == Cancelled(clock) /\ U
MClose == st # "none" /\ Close(clock) /\ dead' = dead \cup {lg} /\ UNCHANGED <<nreq, refused>>
MIdle == /\ phase = "idle" /\ nreq < MaxReq /\ clock < 2 * LifeMs /\ clock' = clock + LifeMs \div 2
         /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd,
                        st, exp, lg, fb, nl, ans>> /\ U
Progress == MLogin \/ MLoginOk \/ MLoginRefused \/ MLoginRefused2 \/ MLoginBad
            \/ MReq \/ MReqOk \/ MReqBad \/ MOk \/ MErr \/ MCancelled
MNext == Progress \/ MCall \/ MCancel \/ MClose \/ MIdle
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
DeadNotUsed == phase = "req" => lg \notin dead
DefaultMeansRefused == phase = "login" /\ fb => refused # {}
Ends == phase # "idle" ~> (phase = "idle" \/ nl = MaxLogin)
=============================================================================
