-------------------------------- MODULE Aes --------------------------------
(* AES (securePassthrough) session state machine on top of HttpSession.      *)
(* A session is identified by the number h of the handshake that created it; *)
(* lg is the number of the login whose token the session uses.               *)
EXTENDS HttpSession
VARIABLES
  st,     \* "none" | "login" (handshake done) | "est" (logged in)
  sess,   \* [h, exp, ck]
  lg,     \* login number whose token is in use, 0 = none
  fb,     \* inside the fallback login with the default credentials
  nh, nl, \* handshakes and logins so far
  ans
avars == <<hvars, st, sess, lg, fb, nh, nl, ans>>

NoSess == [h |-> 0, exp |-> 0, ck |-> FALSE]
MarginMs == 1200 * 1000
DayS == 86400

AInit(f) == HInit(f) /\ st = "none" /\ sess = NoSess /\ lg = 0 /\ fb = FALSE /\ nh = 0 /\ nl = 0 /\ ans = 0

NeedHs == st = "none" \/ due >= sess.exp
Cookie == IF sess.ck THEN sess.h ELSE 0
\* error answers carry their class c; transport faults are classified by PostClass
CodeKind(kind) == kind \in {"outer", "inner"}
Class(kind, c) == IF CodeKind(kind) THEN c ELSE PostClass(kind)
FbClass(c) == IF fb /\ c \notin {"auth", "conn", "timeout"} THEN "kasa" ELSE c
AfterFail(c) == st' = (IF c = "conn" THEN st ELSE "none")

Call(r, n, t) == HCall(r, n, t) /\ UNCHANGED <<st, sess, lg, fb, nh, nl, ans>>

Hs(h, ck, t) ==
  /\ (StartOk /\ NeedHs) \/ phase = "fbhs"
  /\ h = nh + 1 /\ ck = 0 /\ HPost("hs", t)
  /\ nh' = h /\ st' = "none" /\ sess' = NoSess /\ lg' = 0 /\ fb' = (phase = "fbhs") /\ ans' = 0
  /\ UNCHANGED nl
HsOk(to, hasck, t) ==
  /\ phase = "hs" /\ HResp("loginw", t) /\ st' = "login"
  /\ sess' = [h |-> nh, exp |-> t + (IF to = 0 THEN DayS ELSE to) * 1000 - MarginMs, ck |-> hasck]
  /\ UNCHANGED <<lg, fb, nh, nl, ans>>
HsBad(kind, c, t) ==
  /\ phase = "hs" /\ HFail(FbClass(Class(kind, c)), PostFault(kind), t)
  /\ UNCHANGED <<st, sess, lg, fb, nh, nl, ans>>

\* who: whose credentials the login carries; tk: token in the url
Login(who, key, ck, tk, t) ==
  /\ phase = "loginw" \/ (StartOk /\ ~NeedHs /\ st = "login")
  /\ key = sess.h /\ ck = Cookie /\ tk = 0
  /\ who = (IF phase = "loginw" /\ fb THEN "default" ELSE "user")
  /\ HPost("login", t) /\ nl' = nl + 1 /\ fb' = (phase = "loginw" /\ fb)
  /\ UNCHANGED <<st, sess, lg, nh, ans>>
LoginOk(n, t) ==
  /\ phase = "login" /\ n = nl /\ HResp("reqw", t) /\ st' = "est" /\ lg' = n
  /\ UNCHANGED <<sess, fb, nh, nl, ans>>
LoginRefused(t) ==
  /\ phase = "login" /\ ~fb /\ HResp("fbhs", t) /\ st' = "none"
  /\ UNCHANGED <<sess, lg, fb, nh, nl, ans>>
LoginBad(kind, c, t) ==
  /\ phase = "login"
  /\ LET k == FbClass(Class(kind, c)) IN
     /\ HFail(k, PostFault(kind), t) /\ AfterFail(k)
  /\ UNCHANGED <<sess, lg, fb, nh, nl, ans>>
LoginRefusedAgain(t) ==
  /\ phase = "login" /\ fb /\ HFail("auth", FALSE, t) /\ st' = "none"
  /\ UNCHANGED <<sess, lg, fb, nh, nl, ans>>

Req(r, key, ck, tk, t) ==
  /\ phase = "reqw" \/ (StartOk /\ ~NeedHs /\ st = "est")
  /\ r = cur /\ key = sess.h /\ ck = Cookie /\ tk = lg /\ lg # 0
  /\ HPost("req", t) /\ ans' = 0 /\ fb' = FALSE
  /\ UNCHANGED <<st, sess, lg, nh, nl>>
ReqOk(tok, t) == /\ phase = "req" /\ HResp("done", t) /\ ans' = tok
                 /\ UNCHANGED <<st, sess, lg, fb, nh, nl>>
ReqBad(kind, c, t) ==
  /\ phase = "req" /\ HFail(Class(kind, c), PostFault(kind), t) /\ AfterFail(Class(kind, c))
  /\ UNCHANGED <<sess, lg, fb, nh, nl, ans>>

Ok(tok, t) == /\ phase = "done" /\ ~cancelled /\ Now(t) /\ tok = ans
              /\ HDone /\ UNCHANGED <<st, sess, lg, fb, nh, nl, ans>>
Err(c, t) == HErr(c, t) /\ UNCHANGED <<st, sess, lg, fb, nh, nl, ans>>
Cancel(t) == HCancel(t) /\ UNCHANGED <<st, sess, lg, fb, nh, nl, ans>>
Cancelled(t) == HCancelled(t) /\ UNCHANGED <<st, sess, lg, fb, nh, nl, ans>>
Close(t) == /\ At(t) /\ phase = "idle" /\ st' = "none"
            /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd,
                           sess, lg, fb, nh, nl, ans>>

(* Properties *)
ReqOnlyLoggedIn == phase = "req" => st = "est" /\ sess.h = nh /\ lg = nl /\ lg # 0
LoginOnlyAfterHs == phase = "login" => st = "login" /\ sess.h = nh
FreshAfterFailure == phase = "failed" /\ cls # "conn" => st = "none"
\* the default credentials are used only after a refusal, on a session created after it
DefaultOnlyAfterRefusal == [][phase' = "login" /\ phase # "login" /\ fb' => fb]_avars
FallbackOnFreshHandshake == [][fb' /\ ~fb => phase = "fbhs" /\ nh' = nh + 1]_avars
=============================================================================
