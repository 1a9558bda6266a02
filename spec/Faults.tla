------------------------------- MODULE Faults -------------------------------
(* What a caller may see, whatever the network or the device does: a query   *)
(* is a sequence of exchanges, each of which ends well, with a lost          *)
(* connection, a timeout, an unexpected HTTP status or a malformed answer.   *)
(* Independent of the transport; sessions are specified in Klap, Aes, ...    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES
  lump,    \* the transport reports every failure as retryable (legacy IP camera)
  fam, clock, phase,   \* "idle" | "open" (between exchanges) | "wait" (exchange in flight)
  cur, retry, fails,   \* failed exchanges of this query that used up an attempt for sure
  soft,    \* malformed exchanges: may have ended an attempt
  last,    \* outcome of the last exchange
  cancelled, spaced, lastSpaced
fvars == <<lump, fam, clock, phase, cur, retry, fails, soft, last, cancelled, spaced, lastSpaced>>

SpaceMs == 250
BackoffMs == 1000
Library == {"kasa", "device", "auth", "retryable", "timeout", "conn"}
Outcomes == {"ok", "conn", "timeout", "http", "bad"}

FInit(f, lp) == /\ lump = lp /\ fam = f /\ clock = 0 /\ phase = "idle" /\ cur = 0 /\ retry = 0 /\ fails = 0 /\ soft = 0
                /\ last = "none" /\ cancelled = FALSE /\ spaced = FALSE /\ lastSpaced = -SpaceMs
At(t) == t >= clock /\ clock' = t
Now(t) == t = clock /\ clock' = t

Call(r, n, t) == /\ At(t) /\ phase = "idle" /\ phase' = "open" /\ cur' = r /\ retry' = n /\ fails' = 0 /\ soft' = 0
                 /\ last' = "none" /\ cancelled' = FALSE /\ UNCHANGED <<lump, fam, spaced, lastSpaced>>
\* next exchange: soon, spaced after a lost connection, after the backoff of a timeout
Post(t) ==
  /\ phase = "open" /\ ~cancelled /\ t >= clock /\ clock' = t
  /\ spaced => t >= lastSpaced + SpaceMs
  /\ (last = "timeout" /\ ~lump) => t >= clock + BackoffMs
  /\ t <= clock + BackoffMs + SpaceMs
  /\ last \in {"conn", "timeout"} => fails <= retry       \* never more attempts than allowed
  /\ last = "http" => fails + soft <= retry + soft
  /\ phase' = "wait" /\ UNCHANGED <<lump, fam, cur, retry, fails, soft, last, cancelled, spaced, lastSpaced>>
Resp(k, t) ==
  /\ phase = "wait" /\ ~cancelled /\ At(t) /\ k \in Outcomes /\ phase' = "open" /\ last' = k
  /\ fails' = IF k \in {"conn", "timeout", "http"} THEN fails + 1 ELSE fails
  /\ soft' = IF k = "bad" THEN soft + 1 ELSE soft
  /\ spaced' = (spaced \/ k = "conn")
  /\ lastSpaced' = IF k = "conn" \/ (k = "ok" /\ spaced) THEN t ELSE lastSpaced
  /\ UNCHANGED <<lump, fam, cur, retry, cancelled>>
Done == phase' = "idle" /\ cur' = 0 /\ fails' = 0 /\ soft' = 0 /\ last' = "none" /\ retry' = 0 /\ cancelled' = FALSE
        /\ UNCHANGED <<lump, fam, spaced, lastSpaced>>
\* the error a caller sees
ErrOk(c) ==
  /\ c \in Library
  /\ CASE last = "conn" -> c = (IF lump THEN "retryable" ELSE "conn") /\ fails + soft >= retry + 1 /\ fails <= retry + 1
       [] last = "timeout" -> c = (IF lump THEN "retryable" ELSE "timeout") /\ fails + soft >= retry + 1 /\ fails <= retry + 1
       [] last = "http" -> c \in (IF lump THEN {"retryable"} ELSE {"kasa", "retryable", "auth"})
       [] last = "bad" -> c \in {"kasa", "device", "auth", "retryable"}
       [] OTHER -> soft > 0 /\ c \in {"kasa", "device", "auth", "retryable"}
Err(c, t) == phase = "open" /\ ~cancelled /\ Now(t) /\ ErrOk(c) /\ Done
\* an answer is given only after an exchange that brought one, and it is the device's answer to this query
Ok(tok, good, t) == /\ phase = "open" /\ ~cancelled /\ Now(t) /\ last \in {"ok", "bad"}
                    /\ (soft = 0 => tok = cur /\ good) /\ Done
Cancel(t) == /\ At(t) /\ phase # "idle" /\ cancelled' = TRUE
             /\ UNCHANGED <<lump, fam, phase, cur, retry, fails, soft, last, spaced, lastSpaced>>
Cancelled(t) == Now(t) /\ cancelled /\ Done
=============================================================================
