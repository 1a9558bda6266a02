----------------------------- MODULE XorConnMC -----------------------------
(* Exhaustive environment: late answers on any connection, breaks, connect   *)
(* outcomes, cancellation anywhere.  NoStale: an answer is only ever given   *)
(* to the request it was produced for.                                       *)
EXTENDS XorConn
CONSTANTS MaxReq, MaxRetry, MaxConn
VARIABLES asked,   \* per connection: requests written and not yet answered by the device
          lastok,  \* [req, of]: last successful result and the request its answer was made for
          nreq
mv == <<xvars, asked, lastok, nreq>>
MInit == XInit /\ asked = <<>> /\ lastok = [req |-> 0, of |-> 0] /\ nreq = 0
U == UNCHANGED <<asked, lastok, nreq>>
Times == {clock, deadline, due}
MCall == /\ nreq < MaxReq /\ \E n \in 0..MaxRetry : Call(nreq + 1, n, clock)
         /\ nreq' = nreq + 1 /\ UNCHANGED <<asked, lastok>>
MOpen == /\ nconn < MaxConn /\ \E t \in Times : Open(nconn + 1, t)
         /\ asked' = Append(asked, <<>>) /\ UNCHANGED <<lastok, nreq>>
MOpenOk == OpenOk(nconn, clock) /\ U
MOpenFail == \E k \in {"refused", "timedout", "oserror"} : OpenFail(k, clock) /\ U
MOpenAborted == \E t \in Times : OpenAborted(t) /\ U
MWrite == \E t \in Times : Write(open, cur, t) /\ asked' = [asked EXCEPT ![open] = Append(@, cur)]
            /\ UNCHANGED <<lastok, nreq>>
MDeliver == \E c \in 1..nconn : /\ asked[c] # <<>>
              /\ Deliver(c, Head(asked[c]), Head(asked[c]), clock)
              /\ asked' = [asked EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<lastok, nreq>>
MBreak == \E c \in 1..nconn : c \notin broken /\ c = open /\ Break(c, clock) /\ U
MClose == \E t \in Times : Close(open, t) /\ U
MOk == /\ open # 0 /\ inbuf[open] # <<>> /\ Ok(Head(inbuf[open])[2], clock)
       /\ lastok' = [req |-> cur, of |-> Head(inbuf[open])[1]] /\ UNCHANGED <<asked, nreq>>
MErr == Err(cls, clock) /\ U
MCancel == ~cancelled /\ Cancel(clock) /\ U
MCancelled == Cancelled(clock) /\ U
MCloseCall == open # 0 /\ CloseCall(clock) /\ U
MCloseRet == CloseRet(clock) /\ U
Progress == MOpen \/ MOpenOk \/ MOpenFail \/ MOpenAborted \/ MWrite \/ MClose \/ MOk \/ MErr
            \/ MCancelled \/ MCloseRet
MNext == Progress \/ MCall \/ MDeliver \/ MBreak \/ MCancel \/ MCloseCall
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(Progress)
NoStale == lastok.req = lastok.of
AtMostOneOpen == open \in 0..nconn
Ends == phase # "idle" ~> (phase = "idle" \/ nconn = MaxConn)
=============================================================================
