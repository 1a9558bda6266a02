------------------------------ MODULE XorConn ------------------------------
(* Legacy TCP transport under IotProtocol.query: one connection, reused only *)
(* while healthy.  The device may answer late, on any connection it ever     *)
(* accepted; answers carry no request id, so hygiene is all that protects    *)
(* a caller from a stale answer.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  clock, phase,   \* "idle" "start" "connecting" "connected" "waiting" "failed" "closing"
  cur,            \* request being served (0: none)
  retry, attempt, due, deadline, cls,
  open,           \* connection currently held open by the transport (0: none)
  nconn,          \* connections opened so far
  inbuf,          \* per connection: answers delivered but not consumed, as <<req, tok>>
  broken,         \* connections on which the device broke the stream
  cancelled       \* the current task was cancelled

xvars == <<clock, phase, cur, retry, attempt, due, deadline, cls, open, nconn, inbuf, broken, cancelled>>

TimeoutMs == 5000
BackoffMs == 1000
ConnectClass(kind) == CASE kind \in {"refused", "hostdown", "hostunreach"} -> "kasa"
                        [] kind = "timedout" -> "timeout"     \* OS level timeout is a TimeoutError
                        [] OTHER -> "retryable"
Retryable(c) == c \in {"retryable", "timeout"}
Wait(c) == IF c = "timeout" THEN BackoffMs ELSE 0

XInit == /\ clock = 0 /\ phase = "idle" /\ cur = 0 /\ retry = 0 /\ attempt = 0 /\ due = 0
         /\ deadline = 0 /\ cls = "none" /\ open = 0 /\ nconn = 0 /\ inbuf = <<>>
         /\ broken = {} /\ cancelled = FALSE

At(t) == t >= clock /\ clock' = t
Now(t) == t = clock /\ clock' = t

Call(r, n, t) ==
  /\ At(t) /\ phase = "idle"
  /\ phase' = "start" /\ cur' = r /\ retry' = n /\ attempt' = 0 /\ due' = t /\ cls' = "none"
  /\ cancelled' = FALSE
  /\ UNCHANGED <<deadline, open, nconn, inbuf, broken>>

Failed(c, t) == /\ phase' = "failed" /\ cls' = c /\ due' = t + Wait(c)

\* a connection is opened only when none is held
Open(c, t) ==
  /\ t = due /\ t >= clock /\ clock' = t /\ open = 0 /\ c = nconn + 1 /\ ~cancelled
  /\ \/ phase = "start" /\ attempt' = attempt
     \/ /\ phase = "failed" /\ Retryable(cls) /\ attempt < retry /\ attempt' = attempt + 1
  /\ nconn' = c /\ inbuf' = Append(inbuf, <<>>) /\ phase' = "connecting"
  /\ deadline' = t + TimeoutMs /\ cls' = "none"
  /\ UNCHANGED <<cur, retry, due, open, broken, cancelled>>

OpenOk(c, t) ==
  /\ At(t) /\ phase = "connecting" /\ c = nconn /\ t <= deadline
  /\ open' = c /\ phase' = "connected" /\ deadline' = t + TimeoutMs
  /\ UNCHANGED <<cur, retry, attempt, due, cls, nconn, inbuf, broken, cancelled>>

OpenFail(kind, t) ==
  /\ At(t) /\ phase = "connecting" /\ t <= deadline
  /\ Failed(ConnectClass(kind), t)
  /\ UNCHANGED <<cur, retry, attempt, deadline, open, nconn, inbuf, broken, cancelled>>

\* the pending connect is abandoned: by its timeout or by cancellation
OpenAborted(t) ==
  /\ At(t) /\ phase = "connecting"
  /\ \/ cancelled /\ phase' = "failed" /\ cls' = "cancel" /\ due' = t
     \/ ~cancelled /\ t = deadline /\ Failed("timeout", t)
  /\ UNCHANGED <<cur, retry, attempt, deadline, open, nconn, inbuf, broken, cancelled>>

Write(c, r, t) ==
  /\ open # 0 /\ c = open /\ r = cur
  /\ \/ phase = "connected" /\ Now(t) /\ deadline' = deadline
     \/ phase = "start" /\ t = due /\ At(t) /\ deadline' = t + TimeoutMs    \* reuse
  /\ phase' = "waiting"
  /\ UNCHANGED <<cur, retry, attempt, due, cls, open, nconn, inbuf, broken, cancelled>>

\* environment: an answer to r becomes readable on connection c (possibly closed long ago)
Deliver(c, r, tok, t) ==
  /\ At(t) /\ c \in 1..nconn
  /\ inbuf' = [inbuf EXCEPT ![c] = Append(@, <<r, tok>>)]
  /\ UNCHANGED <<phase, cur, retry, attempt, due, deadline, cls, open, nconn, broken, cancelled>>

\* environment: the stream on c breaks (end of stream, reset, garbage, short message)
Break(c, t) ==
  /\ At(t) /\ c \in 1..nconn /\ broken' = broken \cup {c}
  /\ UNCHANGED <<phase, cur, retry, attempt, due, deadline, cls, open, nconn, inbuf, cancelled>>

Close(c, t) ==
  /\ open # 0 /\ c = open /\ open' = 0 /\ At(t)
  /\ \/ /\ phase \in {"waiting", "connected"} /\ ~cancelled /\ open \in broken /\ t <= deadline
        /\ Failed("retryable", t)
     \/ /\ phase = "waiting" /\ ~cancelled /\ t = deadline /\ inbuf[open] = <<>>
        /\ Failed("timeout", t)
     \/ /\ phase \in {"waiting", "connected", "start"} /\ cancelled /\ t = clock
        /\ phase' = "failed" /\ cls' = "cancel" /\ due' = t
     \/ /\ phase = "closing" /\ UNCHANGED <<phase, cls, due>>
  /\ UNCHANGED <<cur, retry, attempt, deadline, nconn, inbuf, broken, cancelled>>

Done == /\ phase' = "idle" /\ cur' = 0 /\ cls' = "none" /\ attempt' = 0 /\ cancelled' = FALSE
        /\ retry' = 0

Ok(tok, t) ==
  /\ phase = "waiting" /\ ~cancelled /\ Now(t) /\ open # 0 /\ open \notin broken
  /\ inbuf[open] # <<>> /\ Head(inbuf[open])[2] = tok
  /\ inbuf' = [inbuf EXCEPT ![open] = Tail(@)]
  /\ Done /\ UNCHANGED <<due, deadline, open, nconn, broken>>

Err(c, t) ==
  /\ phase = "failed" /\ Now(t) /\ open = 0 /\ c = cls /\ ~cancelled
  /\ ~Retryable(cls) \/ attempt >= retry
  /\ Done /\ UNCHANGED <<due, deadline, open, nconn, inbuf, broken>>

Cancel(t) ==
  /\ At(t) /\ phase \notin {"idle", "closing"} /\ cancelled' = TRUE
  /\ UNCHANGED <<phase, cur, retry, attempt, due, deadline, cls, open, nconn, inbuf, broken>>

\* cancelled queries end as cancelled; in the middle of an exchange the connection must be gone
Cancelled(t) ==
  /\ Now(t) /\ cancelled /\ phase \in {"failed", "start"}
  /\ phase = "failed" => open = 0
  /\ Done /\ UNCHANGED <<due, deadline, open, nconn, inbuf, broken>>

CloseCall(t) == /\ At(t) /\ phase = "idle" /\ phase' = "closing"
                /\ UNCHANGED <<cur, retry, attempt, due, deadline, cls, open, nconn, inbuf, broken, cancelled>>
CloseRet(t) == /\ At(t) /\ phase = "closing" /\ open = 0 /\ phase' = "idle"
               /\ UNCHANGED <<cur, retry, attempt, due, deadline, cls, open, nconn, inbuf, broken, cancelled>>

\* between queries a held connection has nothing unread and is not known to be in mid-exchange
IdleIsClean == phase = "idle" /\ open # 0 => inbuf[open] = <<>>
ErrorsClose == phase = "failed" /\ cls # "none" /\ open # 0 => FALSE
=============================================================================
