---------------------------- MODULE HttpSession ----------------------------
(* Common part of the HTTP based transports: the protocol retry loop around  *)
(* a sequence of HTTP posts, and the spacing of posts after a connection     *)
(* level error.  Transport specific modules add the session state machine.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  fam,        \* "iot" | "smart": retry behaviour of the protocol on top
  clock, phase, cur, retry, attempt, due, cls, cancelled,
  spaced,     \* a connection error was seen: posts are spaced from now on
  lastPost,   \* completion time of the last post that counts for spacing
  lastEnd     \* completion time of the last post of any outcome

hvars == <<fam, clock, phase, cur, retry, attempt, due, cls, cancelled, spaced, lastPost, lastEnd>>

BackoffMs == 1000
SpaceMs == 250

Retryable(c) == c \in {"conn", "retryable", "timeout"}
Wait(c) == IF c = "timeout" \/ (fam = "smart" /\ c = "retryable") THEN BackoffMs ELSE 0
Max(a, b) == IF a >= b THEN a ELSE b

HInit(f) == /\ fam = f /\ clock = 0 /\ phase = "idle" /\ cur = 0 /\ retry = 0 /\ attempt = 0
            /\ due = 0 /\ cls = "none" /\ cancelled = FALSE
            /\ spaced = FALSE /\ lastPost = -SpaceMs /\ lastEnd = -SpaceMs

At(t) == t >= clock /\ clock' = t
Now(t) == t = clock /\ clock' = t

HCall(r, n, t) ==
  /\ At(t) /\ phase = "idle" /\ phase' = "ready" /\ cur' = r /\ retry' = n /\ attempt' = 0
  /\ due' = t /\ cls' = "none" /\ cancelled' = FALSE
  /\ UNCHANGED <<fam, spaced, lastPost, lastEnd>>

\* A post may go out now: inside the attempt, or as the first one of a retry.
StartOk == phase = "ready" \/ (phase = "failed" /\ Retryable(cls) /\ attempt < retry)
InRetry == phase = "failed"

\* exact time of the next post
PostTime(t) ==
  /\ t >= clock /\ clock' = t
  /\ t >= due /\ (spaced => t >= lastPost + SpaceMs)
  /\ t <= (IF spaced THEN Max(due, lastEnd + SpaceMs) ELSE due)

\* bookkeeping of a post that goes out in state `from' and waits in phase p
HPost(p, t) ==
  /\ ~cancelled /\ PostTime(t) /\ phase' = p
  /\ attempt' = IF InRetry THEN attempt + 1 ELSE attempt
  /\ cls' = "none"
  /\ UNCHANGED <<fam, cur, retry, due, cancelled, spaced, lastPost, lastEnd>>

\* a response arrived; continue in phase p
HResp(p, t) ==
  /\ At(t) /\ ~cancelled /\ phase' = p /\ due' = t /\ lastEnd' = t
  /\ lastPost' = IF spaced THEN t ELSE lastPost
  /\ UNCHANGED <<fam, cur, retry, attempt, cls, cancelled, spaced>>

\* the attempt fails with class c; `post' tells whether the post itself failed (no response)
HFail(c, post, t) ==
  /\ At(t) /\ ~cancelled /\ phase' = "failed" /\ cls' = c /\ due' = t + Wait(c) /\ lastEnd' = t
  /\ spaced' = (spaced \/ c = "conn")
  /\ lastPost' = IF c = "conn" \/ (~post /\ spaced) THEN t ELSE lastPost
  /\ UNCHANGED <<fam, cur, retry, attempt, cancelled>>

HDone == /\ phase' = "idle" /\ cur' = 0 /\ cls' = "none" /\ attempt' = 0 /\ retry' = 0 /\ cancelled' = FALSE
         /\ UNCHANGED <<fam, due, spaced, lastPost, lastEnd>>

HErr(c, t) == /\ phase = "failed" /\ ~cancelled /\ Now(t) /\ c = cls
              /\ ~Retryable(cls) \/ attempt >= retry
              /\ HDone

HCancel(t) == /\ At(t) /\ phase # "idle" /\ cancelled' = TRUE
              /\ UNCHANGED <<fam, phase, cur, retry, attempt, due, cls, spaced, lastPost, lastEnd>>
HCancelled(t) == /\ Now(t) /\ cancelled /\ HDone

\* class of a failed post
PostClass(kind) == CASE kind = "conn" -> "conn" [] kind = "timeout" -> "timeout" [] OTHER -> "kasa"
PostFault(kind) == kind \in {"conn", "timeout", "payload"}
=============================================================================
