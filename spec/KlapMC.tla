------------------------------- MODULE KlapMC -------------------------------
EXTENDS Klap
CONSTANTS MaxReq, MaxRetry, Fam, MaxHs
VARIABLES nreq, used, rejected, done
mv == <<kvars, nreq, used, rejected, done>>
MInit == KInit(Fam) /\ nreq = 0 /\ used = {} /\ rejected = {} /\ done = {}
U == UNCHANGED <<nreq, used, rejected, done>>
Times == {clock, due, lastPost + SpaceMs, lastEnd + SpaceMs}
PostKinds == {"conn", "timeout", "payload", "http"}
MCall == nreq < MaxReq /\ \E n \in 0..MaxRetry : Call(nreq + 1, n, clock) /\ nreq' = nreq + 1
         /\ UNCHANGED <<used, rejected, done>>
MHs1 == nh < MaxHs /\ \E t \in Times : Hs1(nh + 1, 0, t) /\ U
MHs1Ok == \E k \in {"own", "kasa", "blank"} : Hs1Ok(k, 1800, k # "own", clock) /\ U
MHs1Bad == \E k \in PostKinds \cup {"wrong", "badlen"} : Hs1Bad(k, clock) /\ U
MHs2 == \E t \in Times : Hs2(IF pend.ck THEN pend.h ELSE 0, TRUE, t) /\ U
MHs2Ok == Hs2Ok(clock) /\ done' = done \cup {sess'.h} /\ UNCHANGED <<nreq, used, rejected>>
MHs2Bad == \E k \in PostKinds : Hs2Bad(k, clock) /\ U
MReq == \E t \in Times : /\ Req(cur, sess.h, IF sess.ck THEN sess.h ELSE 0, sess.seq + 1, t)
          /\ used' = used \cup {<<sess.h, sess.seq + 1, cur, attempt'>>} /\ UNCHANGED <<nreq, rejected, done>>
MReqOk == ReqOk(cur, clock) /\ U
MReqBad == \E k \in PostKinds \cup {"http403", "garbage"} : ReqBad(k, clock)
             /\ rejected' = (IF k = "http403" THEN rejected \cup {sess.h} ELSE rejected)
             /\ UNCHANGED <<nreq, used, done>>
MOk == Ok(ans, clock) /\ U
MErr == Err(cls, clock) /\ U
MCancel == ~cancelled /\ Cancel(clock) /\ U
MCancelled == Cancelled(clock) /\ U
MClose == sess.h # 0 /\ Close(clock) /\ U
\* time passes while nothing is in flight: half the session lifetime
MIdle == /\ phase = "idle" /\ nreq < MaxReq /\ clock < 1000000 /\ clock' = clock + 300000
         /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd,
                        sess, pend, nh, ans>> /\ U
Progress == MHs1 \/ MHs1Ok \/ MHs1Bad \/ MHs2 \/ MHs2Ok \/ MHs2Bad \/ MReq \/ MReqOk \/ MReqBad
            \/ MOk \/ MErr \/ MCancelled
MNext == Progress \/ MCall \/ MCancel \/ MClose \/ MIdle
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
SeqNeverReused == \A a, b \in used : a[1] = b[1] /\ a[2] = b[2] => a = b
RejectedNotUsed == phase = "req" => sess.h \notin rejected
OnlyCompleted == sess.h # 0 => sess.h \in done
Ends == phase # "idle" ~> (phase = "idle" \/ nh = MaxHs)
=============================================================================
