------------------------------- MODULE Query -------------------------------
(* Protocol level query engine shared by IotProtocol and SmartProtocol:      *)
(*  - callers queue up (FIFO) for the protocol,                               *)
(*  - the holder performs `need' exchanges per attempt,                       *)
(*  - an attempt that fails is classified; retryable classes are retried      *)
(*    up to retry_count times, after reset and the prescribed wait.           *)
(* One action per observable event.  Time is in milliseconds.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS NoCaller      \* model value / constant meaning "nobody"

VARIABLES
  fam,        \* "iot" | "smart": protocol family
  clock,      \* time of the last observed event
  queue,      \* callers waiting, in arrival order
  prog,       \* caller -> [retry, need] of the queries in flight
  holder,     \* caller that owns the protocol or NoCaller
  phase,      \* holder's phase: "ready" | "sending" | "failed" | "done"
  attempt,    \* number of the current attempt, 0-based
  got,        \* answer tokens of the current attempt
  err,        \* [class, tok] of the last failed exchange
  due,        \* earliest (and exact) time of the holder's next send
  resetDone,  \* reset seen since the last failure
  cancelled,  \* callers whose task was cancelled and that have not returned
  nsend       \* exchanges performed by the holder so far, over all attempts

qvars == <<fam, clock, queue, prog, holder, phase, attempt, got, err, due,
           resetDone, cancelled, nsend>>

BackoffMs == 1000

(* Classification of failures ------------------------------------------------*)
RetryCodes == {1002, 1112, -1001, 9999, -40401, -40413}
AuthCodes  == {-1501, 1111, -1005, 1100, 1003, -40412}
ClassOfCode(c) == IF c \in RetryCodes THEN "retryable"
                  ELSE IF c \in AuthCodes THEN "auth" ELSE "device"

Retryable(cls) == cls \in {"conn", "retryable", "timeout"}
NeedsReset(cls) == cls # "conn"
WaitMs(f, cls) == IF cls = "timeout" \/ (f = "smart" /\ cls = "retryable")
                  THEN BackoffMs ELSE 0

NoErr == [class |-> "none", tok |-> 0]

QInit(f) ==
  /\ fam = f /\ clock = 0 /\ queue = <<>> /\ prog = <<>>
  /\ holder = NoCaller /\ phase = "done" /\ attempt = 0 /\ got = <<>>
  /\ err = NoErr /\ due = 0 /\ resetDone = FALSE /\ cancelled = {} /\ nsend = 0

Remove(s, x) == SelectSeq(s, LAMBDA y : y # x)
Waiting == SelectSeq(queue, LAMBDA y : y \notin cancelled)

(* Actions -------------------------------------------------------------------*)
Call(c, retry, need, t) ==
  /\ t >= clock /\ clock' = t
  /\ c # holder /\ \A i \in 1..Len(queue) : queue[i] # c
  /\ queue' = Append(queue, c)
  /\ prog' = [x \in DOMAIN prog \cup {c} |->
                IF x = c THEN [retry |-> retry, need |-> need] ELSE prog[x]]
  /\ UNCHANGED <<fam, holder, phase, attempt, got, err, due, resetDone, cancelled, nsend>>

\* First exchange of a query: the longest waiting caller takes the protocol at once.
Acquire(c, t) ==
  /\ holder = NoCaller /\ Waiting # <<>> /\ Head(Waiting) = c
  /\ t = clock /\ clock' = t
  /\ queue' = Remove(queue, c)
  /\ holder' = c /\ phase' = "sending" /\ attempt' = 0 /\ got' = <<>>
  /\ err' = NoErr /\ due' = t /\ resetDone' = FALSE /\ nsend' = 1
  /\ UNCHANGED <<fam, prog, cancelled>>

\* Next exchange of the same attempt.
NextExchange(c, t) ==
  /\ holder = c /\ phase = "ready" /\ c \notin cancelled
  /\ Len(got) < prog[c].need
  /\ t = due /\ clock' = t
  /\ phase' = "sending" /\ nsend' = nsend + 1
  /\ UNCHANGED <<fam, queue, prog, holder, attempt, got, err, due, resetDone, cancelled>>

\* A new attempt after a failure: allowed class, budget, reset done, wait over.
Retry(c, t) ==
  /\ holder = c /\ phase = "failed" /\ c \notin cancelled
  /\ Retryable(err.class) /\ attempt < prog[c].retry
  /\ NeedsReset(err.class) => resetDone
  /\ t = due /\ clock' = t
  /\ attempt' = attempt + 1 /\ got' = <<>> /\ err' = NoErr /\ resetDone' = FALSE
  /\ phase' = "sending" /\ nsend' = nsend + 1
  /\ UNCHANGED <<fam, queue, prog, holder, due, cancelled>>

Send(c, t) == Acquire(c, t) \/ NextExchange(c, t) \/ Retry(c, t)

Answer(c, tok, t) ==
  /\ holder = c /\ phase = "sending" /\ t >= clock /\ clock' = t
  /\ got' = Append(got, tok) /\ phase' = "ready" /\ due' = t
  /\ UNCHANGED <<fam, queue, prog, holder, attempt, err, resetDone, cancelled, nsend>>

Fail(c, cls, tok, t) ==
  /\ holder = c /\ phase = "sending" /\ t >= clock /\ clock' = t
  /\ cls # "cancel"
  /\ err' = [class |-> cls, tok |-> tok] /\ phase' = "failed"
  /\ due' = t + WaitMs(fam, cls) /\ resetDone' = FALSE
  /\ UNCHANGED <<fam, queue, prog, holder, attempt, got, cancelled, nsend>>

\* The running exchange is interrupted because its caller was cancelled.
Interrupted(c, t) ==
  /\ holder = c /\ phase = "sending" /\ c \in cancelled /\ t = clock /\ clock' = t
  /\ phase' = "failed" /\ err' = [class |-> "cancel", tok |-> 0]
  /\ UNCHANGED <<fam, queue, prog, holder, attempt, got, due, resetDone, cancelled, nsend>>

Reset(t) ==
  /\ holder # NoCaller /\ phase = "failed" /\ NeedsReset(err.class)
  /\ t = clock /\ clock' = t
  /\ resetDone' = TRUE
  /\ UNCHANGED <<fam, queue, prog, holder, phase, attempt, got, err, due, cancelled, nsend>>

Cancel(c, t) ==
  /\ t >= clock /\ clock' = t
  /\ c \in DOMAIN prog
  /\ cancelled' = cancelled \cup {c}
  /\ UNCHANGED <<fam, queue, prog, holder, phase, attempt, got, err, due, resetDone, nsend>>

Forget(c) == [x \in DOMAIN prog \ {c} |-> prog[x]]
Released == /\ holder' = NoCaller /\ phase' = "done" /\ got' = <<>> /\ err' = NoErr
            /\ resetDone' = FALSE /\ attempt' = 0 /\ nsend' = 0 /\ UNCHANGED <<fam, due>>

RetOk(c, toks, t) ==
  /\ holder = c /\ phase = "ready" /\ Len(got) = prog[c].need /\ c \notin cancelled
  /\ toks = got /\ t = clock /\ clock' = t
  /\ prog' = Forget(c) /\ Released /\ UNCHANGED <<queue, cancelled>>

RetErr(c, cls, tok, t) ==
  /\ holder = c /\ phase = "failed" /\ c \notin cancelled
  /\ ~ Retryable(err.class) \/ attempt >= prog[c].retry
  /\ NeedsReset(err.class) /\ err.class # "cancel" => resetDone
     \/ (err.class = "conn")
  /\ err = [class |-> cls, tok |-> tok] /\ t = clock /\ clock' = t
  /\ prog' = Forget(c) /\ Released /\ UNCHANGED <<queue, cancelled>>

RetCancelled(c, t) ==
  /\ c \in cancelled /\ t = clock /\ clock' = t
  /\ prog' = Forget(c) /\ cancelled' = cancelled \ {c}
  /\ \/ /\ holder = c /\ phase # "sending" /\ Released /\ UNCHANGED queue
     \/ /\ holder # c /\ queue' = Remove(queue, c)
        /\ UNCHANGED <<fam, holder, phase, attempt, got, err, due, resetDone, nsend>>

(* Properties ----------------------------------------------------------------*)
TypeOK ==
  /\ phase \in {"ready", "sending", "failed", "done"}
  /\ holder = NoCaller <=> phase = "done"
  /\ holder # NoCaller => holder \in DOMAIN prog

AttemptsBounded == holder # NoCaller => attempt <= prog[holder].retry
SendsBounded == holder # NoCaller => nsend <= (prog[holder].retry + 1) * prog[holder].need
OnlyRetryableRetried ==   \* a second attempt exists only after retryable failures
  [][attempt' = attempt + 1 => Retryable(err.class)]_qvars
ResetBetweenAttempts ==
  [][attempt' = attempt + 1 => (err.class = "conn" \/ resetDone)]_qvars
BackoffRespected ==
  [][/\ (phase = "sending" /\ phase' = "failed") =>
          due' = clock' + WaitMs(fam, err'.class)
     /\ (attempt' = attempt + 1) => clock' = due]_qvars
Contiguous ==             \* the protocol changes hands only through completion
  [][(holder # NoCaller /\ holder' # holder) => holder' = NoCaller]_qvars
=============================================================================
