------------------------------ MODULE FaultsMC ------------------------------
(* Reference client: every exchange outcome ends the attempt with its class; *)
(* k exchanges make an attempt.  Its behaviours must be allowed by Faults.   *)
EXTENDS Faults
CONSTANTS MaxReq, MaxRetry, Exch
VARIABLES nreq, step, att, cl, result
mv == <<fvars, nreq, step, att, cl, result>>
MInit == (\E lp \in BOOLEAN : FInit("smart", lp)) /\ nreq = 0 /\ step = 0 /\ att = 0 /\ cl = "none" /\ result = "none"
ClassOf(k) == IF lump THEN "retryable" ELSE CASE k = "conn" -> "conn" [] k = "timeout" -> "timeout"
                 [] k = "http" -> "kasa" [] OTHER -> "device"
Again(c) == c \in {"conn", "timeout", "retryable"}
MCall == nreq < MaxReq /\ \E n \in 0..MaxRetry : Call(nreq + 1, n, clock) /\ nreq' = nreq + 1
          /\ step' = 0 /\ att' = 0 /\ cl' = "none" /\ result' = "none"
NextTime == LET base == IF cl = "timeout" \/ (cl = "retryable" /\ last = "timeout") THEN clock + BackoffMs ELSE clock
            IN IF spaced /\ base < lastSpaced + SpaceMs THEN lastSpaced + SpaceMs ELSE base
MPost == /\ phase = "open" /\ step < Exch /\ (cl = "none" \/ (Again(cl) /\ att < retry))
         /\ Post(NextTime) /\ att' = (IF cl = "none" THEN att ELSE att + 1) /\ cl' = "none"
         /\ UNCHANGED <<nreq, step, result>>
MResp == \E k \in Outcomes : Resp(k, clock)
         /\ step' = (IF k = "ok" THEN step + 1 ELSE IF k = "bad" /\ ~lump THEN step ELSE 0)
         /\ cl' = (IF k = "ok" THEN "none" ELSE ClassOf(k)) /\ UNCHANGED <<nreq, att, result>>
MErr == /\ cl # "none" /\ (~Again(cl) \/ att >= retry) /\ Err(cl, clock) /\ result' = cl /\ UNCHANGED <<nreq, step, att, cl>>
MOk == cl = "none" /\ step = Exch /\ Ok(cur, TRUE, clock) /\ result' = "ok" /\ UNCHANGED <<nreq, step, att, cl>>
MCancel == ~cancelled /\ Cancel(clock) /\ UNCHANGED <<nreq, step, att, cl, result>>
MCancelled == Cancelled(clock) /\ result' = "cancelled" /\ UNCHANGED <<nreq, step, att, cl>>
MNext == MCall \/ MPost \/ MResp \/ MErr \/ MOk \/ MCancel \/ MCancelled
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(MPost \/ MResp \/ MErr \/ MOk \/ MCancelled)
\* the abstract contract never blocks the reference client, so every query ends
Ends == phase # "idle" ~> phase = "idle"
OnlyLibrary == result \in Library \cup {"none", "ok", "cancelled"}
AttemptsBounded == phase # "idle" => att <= retry
=============================================================================
