------------------------------- MODULE SslAes -------------------------------
(* Camera (SSL AES) session: digest login in two steps, plain login for      *)
(* devices that only offer it, sequence numbers and tags.                    *)
EXTENDS HttpSession
VARIABLES
  cred,   \* the caller supplied credentials (directly or as hash)
  un,     \* user name the next login starts with: "none" | "user" | "default"
  st,     \* "none" | "est"
  sess,   \* [n, mode, h, seq]: n-th login; mode "secure"/"plain"; h: handshake; seq: last used offset
  hs,     \* [h, who]: handshake in progress
  blk,    \* the device reported to be locked to the first user name
  nh, nl, \* handshakes (first steps) and completed logins
  ans
svars == <<hvars, cred, un, st, sess, hs, blk, nh, nl, ans>>

NoSess == [n |-> 0, mode |-> "none", h |-> 0, seq |-> -1]
NoHs == [h |-> 0, who |-> "none"]
SInit(f, c) == /\ HInit(f) /\ cred = c /\ un = (IF c THEN "user" ELSE "none") /\ st = "none"
               /\ sess = NoSess /\ hs = NoHs /\ blk = FALSE /\ nh = 0 /\ nl = 0 /\ ans = 0

Pw == IF cred THEN "own" ELSE "def"     \* the password that must be confirmed
CodeKind(kind) == kind \in {"outer", "inner"}
Class(kind, c) == IF CodeKind(kind) THEN c ELSE IF kind = "http500" THEN "retryable" ELSE PostClass(kind)
Keep == UNCHANGED <<cred, un, st, sess, hs, blk, nh, nl, ans>>

Call(r, n, t) == HCall(r, n, t) /\ Keep

\* first step of the digest login: first with the configured name, then with the default one
H1(h, who, t) ==
  /\ h = nh + 1 /\ nh' = h /\ hs' = [h |-> h, who |-> who] /\ st' = "none" /\ sess' = NoSess /\ ans' = 0
  /\ \/ /\ StartOk /\ st = "none" /\ un # "none" /\ who = un /\ HPost("h1a", t) /\ blk' = FALSE
     \/ /\ StartOk /\ st = "none" /\ un = "none" /\ who = "default" /\ HPost("h1b", t) /\ blk' = FALSE
     \/ /\ phase = "h1bw" /\ who = "default" /\ HPost("h1b", t) /\ UNCHANGED blk
  /\ UNCHANGED <<cred, un, nl>>
H1Un == IF phase = "h1b" THEN "default" ELSE un
\* the device proves it knows password pw (any digest)
H1Nonce(pw, t) ==
  /\ phase \in {"h1a", "h1b"} /\ un' = H1Un
  /\ IF pw = Pw THEN HResp("h2w", t) ELSE HFail("auth", FALSE, t)
  /\ UNCHANGED <<cred, st, sess, hs, blk, nh, nl, ans>>
\* the device only offers the plain login (lessbad: and does not know the user name)
H1Less(kind, t) ==
  /\ \/ phase = "h1a" /\ kind = "less" /\ HResp("law", t)
     \/ phase = "h1a" /\ kind = "lessbad" /\ HResp("h1bw", t)
     \/ phase = "h1b" /\ HResp("lbw", t)
  /\ blk' = (IF phase = "h1a" THEN FALSE ELSE blk)
  /\ UNCHANGED <<cred, un, st, sess, hs, nh, nl, ans>>
\* all ways to log in are used up
Refused(t) == HFail(IF un # "none" /\ blk THEN "device" ELSE "auth", FALSE, t)
H1Other(kind, t) ==
  /\ \/ phase = "h1a" /\ HResp("h1bw", t) /\ blk' = (kind = "blocked")
     \/ phase = "h1b" /\ Refused(t) /\ UNCHANGED blk
  /\ UNCHANGED <<cred, un, st, sess, hs, nh, nl, ans>>
H1Bad(kind, t) ==
  /\ phase \in {"h1a", "h1b"} /\ HFail(PostClass(kind), PostFault(kind), t) /\ Keep

Less(who, pw, t) ==
  /\ pw = Pw
  /\ \/ phase = "law" /\ who = un /\ HPost("la", t)
     \/ phase = "lbw" /\ who = "default" /\ HPost("lb", t)
  /\ Keep
LessOk(n, t) ==
  /\ phase \in {"la", "lb"} /\ n = nl + 1 /\ nl' = n /\ HResp("reqw", t)
  /\ st' = "est" /\ sess' = [n |-> n, mode |-> "plain", h |-> 0, seq |-> -1]
  /\ un' = (IF phase = "lb" THEN "default" ELSE un)
  /\ UNCHANGED <<cred, hs, blk, nh, ans>>
LessRefused(t) ==
  /\ \/ phase = "la" /\ HResp("h1bw", t)
     \/ phase = "lb" /\ Refused(t)
  /\ Keep
LessBad(kind, t) == phase \in {"la", "lb"} /\ HFail(PostClass(kind), PostFault(kind), t) /\ Keep

\* second step: same nonce, same name, digest of the confirmed password
H2(who, h, proof, t) ==
  /\ phase = "h2w" /\ proof /\ h = hs.h /\ who = hs.who /\ HPost("h2", t) /\ Keep
H2Ok(n, t) ==
  /\ phase = "h2" /\ n = nl + 1 /\ nl' = n /\ HResp("reqw", t)
  /\ st' = "est" /\ sess' = [n |-> n, mode |-> "secure", h |-> hs.h, seq |-> -1]
  /\ UNCHANGED <<cred, un, hs, blk, nh, ans>>
H2Bad(kind, c, t) ==
  /\ phase = "h2" /\ HFail(Class(kind, c), PostFault(kind), t) /\ Keep

\* secure: key/tag/seq of the session; plain: none of them
Req(r, mode, n, key, off, tag, t) ==
  /\ phase = "reqw" \/ (StartOk /\ st = "est")
  /\ r = cur /\ mode = sess.mode /\ n = sess.n
  /\ mode = "secure" => key = sess.h /\ off = sess.seq + 1 /\ tag
  /\ HPost("req", t) /\ ans' = 0
  /\ sess' = IF mode = "secure" THEN [sess EXCEPT !.seq = off] ELSE sess
  /\ UNCHANGED <<cred, un, st, hs, blk, nh, nl>>
ReqOk(tok, t) == /\ phase = "req" /\ HResp("done", t) /\ ans' = tok
                 /\ UNCHANGED <<cred, un, st, sess, hs, blk, nh, nl>>
ReqBad(kind, c, t) ==
  /\ phase = "req"
  /\ LET k == IF kind = "http500" /\ sess.mode = "plain" THEN "kasa" ELSE Class(kind, c) IN
     /\ HFail(k, PostFault(kind), t)
     /\ IF k = "conn" THEN UNCHANGED <<st, sess>> ELSE st' = "none" /\ sess' = NoSess
  /\ UNCHANGED <<cred, un, hs, blk, nh, nl, ans>>

Ok(tok, t) == phase = "done" /\ ~cancelled /\ Now(t) /\ tok = ans /\ HDone /\ Keep
Err(c, t) == HErr(c, t) /\ Keep
Cancel(t) == HCancel(t) /\ Keep
Cancelled(t) ==
  /\ HCancelled(t) /\ UNCHANGED <<cred, un, st, hs, blk, nh, nl, ans>>
  /\ \/ UNCHANGED sess
     \/ /\ spaced /\ st = "est" /\ sess.mode = "secure" /\ phase \in {"ready", "reqw", "failed"}
        /\ sess' = [sess EXCEPT !.seq = @ + 1]
Close(t) == /\ At(t) /\ phase = "idle" /\ st' = "none" /\ sess' = NoSess
            /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd,
                           cred, un, hs, blk, nh, nl, ans>>

(* Properties *)
ReqOnlyLoggedIn == phase = "req" => st = "est" /\ sess.n = nl /\ nl > 0
FreshAfterFailure == phase = "failed" /\ cls # "conn" => st = "none"
SecureIffDigest == st = "est" => (sess.mode = "secure" <=> sess.h # 0)
SeqStepsByOne == [][/\ sess'.n = sess.n /\ sess.n # 0 => sess'.seq \in {sess.seq, sess.seq + 1}
                    /\ sess'.n # sess.n /\ sess'.n # 0 => sess'.seq = -1]_svars
BlockedNotRetried == cls = "device" /\ blk => ~Retryable(cls)
=============================================================================
