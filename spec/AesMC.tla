------------------------------- MODULE AesMC -------------------------------
EXTENDS Aes
CONSTANTS MaxReq, MaxRetry, MaxHs
VARIABLES nreq, refused, dead
mv == <<avars, nreq, refused, dead>>
MInit == AInit("smart") /\ nreq = 0 /\ refused = {} /\ dead = {}
U == UNCHANGED <<nreq, refused, dead>>
Times == {clock, due, lastPost + SpaceMs, lastEnd + SpaceMs}
PostKinds == {"conn", "timeout", "payload", "http"}
Codes == {"auth", "retryable", "device"}
MCall == nreq < MaxReq /\ \E n \in 0..MaxRetry : Call(nreq + 1, n, clock) /\ nreq' = nreq + 1
         /\ UNCHANGED <<refused, dead>>
MHs == nh < MaxHs /\ \E t \in Times : Hs(nh + 1, 0, t) /\ U
MHsOk == HsOk(1800, TRUE, clock) /\ U
MHsBad == /\ \/ \E k \in PostKinds : HsBad(k, "-", clock)
             \/ \E c \in Codes : HsBad("outer", c, clock)
          /\ U
MLogin == \E t \in Times : Login(IF phase = "loginw" /\ fb THEN "default" ELSE "user", sess.h, Cookie, 0, t) /\ U
MLoginOk == LoginOk(nl, clock) /\ U
MLoginRefused == LoginRefused(clock) /\ refused' = refused \cup {nl} /\ UNCHANGED <<nreq, dead>>
MLoginRefused2 == LoginRefusedAgain(clock) /\ dead' = dead \cup {sess.h} /\ UNCHANGED <<nreq, refused>>
MLoginBad == /\ \/ \E k \in PostKinds \cup {"garbage"} : LoginBad(k, "-", clock)
                \/ \E c \in Codes : LoginBad("inner", c, clock)
             /\ dead' = (IF cls' = "conn" THEN dead ELSE dead \cup {sess.h}) /\ UNCHANGED <<nreq, refused>>
MReq == \E t \in Times : Req(cur, sess.h, Cookie, lg, t) /\ U
MReqOk == ReqOk(cur, clock) /\ U
MReqBad == /\ \/ \E k \in PostKinds \cup {"garbage"} : ReqBad(k, "-", clock)
              \/ \E c \in Codes : ReqBad("inner", c, clock)
           /\ dead' = (IF cls' = "conn" THEN dead ELSE dead \cup {sess.h}) /\ UNCHANGED <<nreq, refused>>
MOk == Ok(ans, clock) /\ U
MErr == Err(cls, clock) /\ U
MCancel == ~cancelled /\ Cancel(clock) /\ U
MCancelled == Cancelled(clock) /\ U
MClose == st # "none" /\ Close(clock) /\ dead' = dead \cup {sess.h} /\ UNCHANGED <<nreq, refused>>
MIdle == /\ phase = "idle" /\ nreq < MaxReq /\ clock < 1000000 /\ clock' = clock + 300000
         /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd,
                        st, sess, lg, fb, nh, nl, ans>> /\ U
Progress == MHs \/ MHsOk \/ MHsBad \/ MLogin \/ MLoginOk \/ MLoginRefused \/ MLoginRefused2 \/ MLoginBad
            \/ MReq \/ MReqOk \/ MReqBad \/ MOk \/ MErr \/ MCancelled
MNext == Progress \/ MCall \/ MCancel \/ MClose \/ MIdle
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
DeadNotUsed == phase \in {"login", "req"} => sess.h \notin dead
DefaultMeansRefused == phase = "login" /\ fb => refused # {}
Ends == phase # "idle" ~> (phase = "idle" \/ nh = MaxHs)
=============================================================================
