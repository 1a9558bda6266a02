------------------------------ MODULE SslAesMC ------------------------------
EXTENDS SslAes
CONSTANTS MaxReq, MaxRetry, MaxHs
VARIABLES nreq, used, confirmed
mv == <<svars, nreq, used, confirmed>>
MInit == (\E c \in BOOLEAN : SInit("smart", c)) /\ nreq = 0 /\ used = {} /\ confirmed = {}
U == UNCHANGED <<nreq, used, confirmed>>
Times == {clock, due, lastPost + SpaceMs, lastEnd + SpaceMs}
PostKinds == {"conn", "timeout", "http"}
Codes == {"auth", "retryable", "device"}
MCall == nreq < MaxReq /\ \E n \in 0..MaxRetry : Call(nreq + 1, n, clock) /\ nreq' = nreq + 1 /\ UNCHANGED <<used, confirmed>>
MH1 == nh < MaxHs /\ \E t \in Times, w \in {"user", "default"} : H1(nh + 1, w, t) /\ U
MH1Nonce == \E p \in {"own", "def", "wrong"} : H1Nonce(p, clock)
            /\ confirmed' = (IF p = Pw THEN confirmed \cup {hs.h} ELSE confirmed) /\ UNCHANGED <<nreq, used>>
MH1Less == \E k \in {"less", "lessbad"} : H1Less(k, clock) /\ U
MH1Other == \E k \in {"blocked", "other"} : H1Other(k, clock) /\ U
MH1Bad == \E k \in PostKinds : H1Bad(k, clock) /\ U
MLess == \E t \in Times, w \in {"user", "default"} : Less(w, Pw, t) /\ U
MLessOk == LessOk(nl + 1, clock) /\ U
MLessRefused == LessRefused(clock) /\ U
MLessBad == \E k \in PostKinds : LessBad(k, clock) /\ U
MH2 == \E t \in Times : H2(hs.who, hs.h, TRUE, t) /\ U
MH2Ok == H2Ok(nl + 1, clock) /\ U
MH2Bad == ((\E k \in PostKinds : H2Bad(k, "-", clock)) \/ \E c \in Codes : H2Bad("outer", c, clock)) /\ U
MReq == \E t \in Times : Req(cur, sess.mode, sess.n, sess.h, sess.seq + 1, TRUE, t)
          /\ used' = (IF sess.mode = "secure" THEN used \cup {<<sess.n, sess.seq + 1, cur, attempt'>>} ELSE used)
          /\ UNCHANGED <<nreq, confirmed>>
MReqOk == ReqOk(cur, clock) /\ U
MReqBad == /\ \/ \E k \in PostKinds \cup {"garbage", "http500"} : ReqBad(k, "-", clock)
              \/ \E c \in Codes : ReqBad("inner", c, clock)
           /\ U
MOk == Ok(ans, clock) /\ U
MErr == Err(cls, clock) /\ U
MCancel == ~cancelled /\ Cancel(clock) /\ U
MCancelled == Cancelled(clock) /\ U
MClose == st # "none" /\ Close(clock) /\ U
Progress == MH1 \/ MH1Nonce \/ MH1Less \/ MH1Other \/ MH1Bad \/ MLess \/ MLessOk \/ MLessRefused \/ MLessBad
            \/ MH2 \/ MH2Ok \/ MH2Bad \/ MReq \/ MReqOk \/ MReqBad \/ MOk \/ MErr \/ MCancelled
MNext == Progress \/ MCall \/ MCancel \/ MClose
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
SeqNeverReused == \A a, b \in used : a[1] = b[1] /\ a[2] = b[2] => a = b
SecureMeansConfirmed == st = "est" /\ sess.mode = "secure" => sess.h \in confirmed
H2MeansConfirmed == phase = "h2" => hs.h \in confirmed
Ends == phase # "idle" ~> (phase = "idle" \/ nh = MaxHs)
=============================================================================
