------------------------------- MODULE Token -------------------------------
(* Token login sessions of the HTTPS transport without payload encryption.   *)
EXTENDS HttpSession
VARIABLES
  st,    \* "none" | "est"
  exp,   \* expiry of the login
  lg,    \* login whose token is in use
  fb,    \* fallback login with the default credentials in progress
  nl, ans
tvars == <<hvars, st, exp, lg, fb, nl, ans>>

LifeMs == (86400 - 1200) * 1000
FallbackPause == 1000          \* before the first login with default credentials
TInit(f) == HInit(f) /\ st = "none" /\ exp = 0 /\ lg = 0 /\ fb = FALSE /\ nl = 0 /\ ans = 0

NeedLogin == st = "none" \/ due >= exp
CodeKind(kind) == kind = "code"
Class(kind, c) == IF CodeKind(kind) THEN c ELSE PostClass(kind)
FbClass(c) == IF fb /\ c \notin {"auth", "conn", "timeout"} THEN "kasa" ELSE c
Keep == UNCHANGED <<st, exp, lg, fb, nl, ans>>

Call(r, n, t) == HCall(r, n, t) /\ Keep
\* tk: token in the url; a login that renews an expired session may still carry the old one
Login(who, tk, t) ==
  /\ \/ StartOk /\ NeedLogin /\ who = "user" /\ fb' = FALSE /\ (tk = 0 \/ (st = "est" /\ tk = lg))
     \/ phase = "fbw" /\ who = "default" /\ fb' = TRUE /\ tk = 0
  /\ HPost("login", t) /\ nl' = nl + 1 /\ ans' = 0
  /\ UNCHANGED <<st, exp, lg>>
LoginOk(n, t) ==
  /\ phase = "login" /\ n = nl /\ HResp("reqw", t) /\ st' = "est" /\ lg' = n /\ exp' = t + LifeMs
  /\ UNCHANGED <<fb, nl, ans>>
LoginRefused(pause, t) ==
  /\ phase = "login" /\ ~fb /\ At(t) /\ ~cancelled /\ phase' = "fbw" /\ lastEnd' = t
  /\ due' = t + pause /\ lastPost' = (IF spaced THEN t ELSE lastPost)
  /\ st' = "none" /\ lg' = 0
  /\ UNCHANGED <<fam, cur, retry, attempt, cls, cancelled, spaced, exp, fb, nl, ans>>
After(k) == IF k = "conn" THEN UNCHANGED <<st, lg>> ELSE st' = "none" /\ lg' = 0
LoginBad(kind, c, t) ==
  /\ phase = "login"
  /\ LET k == FbClass(Class(kind, c)) IN HFail(k, PostFault(kind), t) /\ After(k)
  /\ UNCHANGED <<exp, fb, nl, ans>>
LoginRefusedAgain(t) ==
  /\ phase = "login" /\ fb /\ HFail("auth", FALSE, t) /\ After("auth") /\ UNCHANGED <<exp, fb, nl, ans>>

Req(r, tk, t) ==
  /\ phase = "reqw" \/ (StartOk /\ ~NeedLogin)
  /\ r = cur /\ tk = lg /\ lg # 0 /\ HPost("req", t) /\ ans' = 0 /\ fb' = FALSE
  /\ UNCHANGED <<st, exp, lg, nl>>
ReqOk(tok, t) == phase = "req" /\ HResp("done", t) /\ ans' = tok /\ UNCHANGED <<st, exp, lg, fb, nl>>
ReqBad(kind, c, t) ==
  /\ phase = "req" /\ HFail(Class(kind, c), PostFault(kind), t) /\ After(Class(kind, c))
  /\ UNCHANGED <<exp, fb, nl, ans>>

Ok(tok, t) == phase = "done" /\ ~cancelled /\ Now(t) /\ tok = ans /\ HDone /\ Keep
Err(c, t) == HErr(c, t) /\ Keep
Cancel(t) == HCancel(t) /\ Keep
Cancelled(t) == HCancelled(t) /\ Keep
Close(t) == /\ At(t) /\ phase = "idle" /\ st' = "none" /\ lg' = 0
            /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd,
                           exp, fb, nl, ans>>
(* Properties *)
ReqOnlyLoggedIn == phase = "req" => st = "est" /\ lg = nl /\ lg # 0
FreshAfterFailure == phase = "failed" /\ cls # "conn" => st = "none"
DefaultOnlyAfterRefusal == [][phase' = "login" /\ phase # "login" /\ fb' => phase = "fbw"]_tvars
=============================================================================
