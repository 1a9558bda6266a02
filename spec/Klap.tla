-------------------------------- MODULE Klap --------------------------------
(* KLAP session state machine on top of HttpSession.                         *)
(* A session is identified by the handshake number h the device gave it.     *)
EXTENDS HttpSession
VARIABLES
  sess,   \* [h, exp, seq]: established session, h = 0 when there is none
  pend,   \* [h, exp, ck]: handshake between its two stages
  nh,     \* handshakes started so far
  ans     \* token of the answer received by the current attempt
kvars == <<hvars, sess, pend, nh, ans>>

NoSess == [h |-> 0, exp |-> 0, seq |-> 0, ck |-> FALSE]
NoPend == [h |-> 0, exp |-> 0, ck |-> FALSE]
MarginMs == 1200 * 1000
DayS == 86400

KInit(f) == HInit(f) /\ sess = NoSess /\ pend = NoPend /\ nh = 0 /\ ans = 0

\* evaluated when the attempt starts
NeedHandshake == sess.h = 0 \/ due >= sess.exp
ProofOk(kind) == kind \in {"own", "kasa", "kasacamera", "tapo", "tapocamera", "blank"}

Call(r, n, t) == HCall(r, n, t) /\ UNCHANGED <<sess, pend, nh, ans>>

Hs1(h, ck, t) ==
  /\ StartOk /\ NeedHandshake /\ h = nh + 1 /\ ck = 0
  /\ HPost("hs1", t) /\ nh' = h /\ sess' = NoSess /\ pend' = NoPend /\ ans' = 0

\* timeout cookie `to' in seconds (0: none sent); hasck: a session cookie was set
Hs1Ok(kind, to, hasck, t) ==
  /\ phase = "hs1" /\ ProofOk(kind) /\ HResp("hs2w", t)
  /\ pend' = [h |-> nh, exp |-> t + (IF to = 0 THEN DayS ELSE to) * 1000 - MarginMs, ck |-> hasck]
  /\ UNCHANGED <<sess, nh, ans>>
Hs1Bad(kind, t) ==
  /\ phase = "hs1"
  /\ HFail(IF kind = "wrong" THEN "auth" ELSE PostClass(kind), PostFault(kind), t)
  /\ sess' = NoSess /\ UNCHANGED <<pend, nh, ans>>

Hs2(ck, proof, t) ==
  /\ phase = "hs2w" /\ proof /\ ck = (IF pend.ck THEN pend.h ELSE 0)
  /\ HPost("hs2", t) /\ UNCHANGED <<sess, pend, nh, ans>>
Hs2Ok(t) ==
  /\ phase = "hs2" /\ HResp("reqw", t)
  /\ sess' = [h |-> pend.h, exp |-> pend.exp, seq |-> 0, ck |-> pend.ck] /\ pend' = NoPend
  /\ UNCHANGED <<nh, ans>>
Hs2Bad(kind, t) ==
  /\ phase = "hs2" /\ HFail(PostClass(kind), PostFault(kind), t)
  /\ sess' = NoSess /\ pend' = NoPend /\ UNCHANGED <<nh, ans>>

\* key: the handshake whose key and signature fit the body; off: sequence offset in that session
Req(r, key, ck, off, t) ==
  /\ phase = "reqw" \/ (StartOk /\ ~NeedHandshake)
  /\ r = cur /\ key = sess.h /\ sess.h # 0 /\ off = sess.seq + 1
  /\ ck = (IF sess.ck THEN sess.h ELSE 0)
  /\ HPost("req", t) /\ sess' = [sess EXCEPT !.seq = off] /\ ans' = 0
  /\ UNCHANGED <<pend, nh>>
ReqOk(tok, t) ==
  /\ phase = "req" /\ HResp("done", t) /\ ans' = tok /\ UNCHANGED <<sess, pend, nh>>
ReqBad(kind, t) ==
  /\ phase = "req"
  /\ HFail(IF kind = "http403" THEN "retryable" ELSE PostClass(kind), PostFault(kind), t)
  /\ sess' = IF kind = "conn" THEN sess ELSE NoSess      \* only a lost connection keeps the session
  /\ UNCHANGED <<pend, nh, ans>>

Ok(tok, t) == /\ phase = "done" /\ ~cancelled /\ Now(t) /\ tok = ans
              /\ HDone /\ UNCHANGED <<sess, pend, nh, ans>>
Err(c, t) == HErr(c, t) /\ UNCHANGED <<sess, pend, nh, ans>>
Cancel(t) == HCancel(t) /\ UNCHANGED <<sess, pend, nh, ans>>
\* An interrupted handshake leaves no session; an interrupted request keeps it and its number is
\* spent - possibly even when it was interrupted while waiting for the spacing of posts.
Cancelled(t) ==
  /\ HCancelled(t) /\ UNCHANGED <<pend, nh, ans>>
  /\ \/ UNCHANGED sess
     \/ /\ spaced /\ sess.h # 0 /\ phase \in {"ready", "reqw", "failed"}
        /\ sess' = [sess EXCEPT !.seq = @ + 1]
Close(t) == /\ At(t) /\ phase = "idle" /\ sess' = NoSess
            /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd, pend, nh, ans>>

(* Properties *)
ReqOnlyInSession == phase = "req" => sess.h # 0 /\ sess.seq >= 1
FreshAfterFailure == phase = "failed" /\ cls # "conn" => sess.h = 0
SeqStepsByOne == [][/\ sess'.h = sess.h /\ sess.h # 0 => sess'.seq \in {sess.seq, sess.seq + 1}
                    /\ sess'.h # sess.h /\ sess'.h # 0 => sess'.seq = 0 /\ sess'.h = nh]_kvars
NoReqWithoutProof == [][phase' = "req" /\ phase # "req" => sess.h # 0]_kvars
=============================================================================
