------------------------------ MODULE BatchGen ------------------------------
EXTENDS BatchMC, TLC, Json
CONSTANT MaxAns
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = [cam |-> cam, bs |-> bs, q |-> <<>>, ans |-> <<>>]
A(x) == hist' = [hist EXCEPT !.ans = Append(@, x)]
GNext ==
  \/ MCall /\ hist' = [hist EXCEPT !.q = Append(@, [ms |-> SetToSortSeq(asked', <), retry |-> retry'])]
  \/ (MSendBatch \/ MSendSingle \/ MSendPage \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ /\ phase = "wait" /\ flight.kind = "batch" /\ U
     /\ \E j \in 0..Len(flight.ms), e, rev \in BOOLEAN :
          LET it == [x \in 1..j |-> IF x = j /\ e THEN Code(flight.ms[x]) ELSE Val(flight.ms[x])]
          IN AnsBatch(IF rev THEN Reverse(it) ELSE it) /\ A([k |-> "some", j |-> j, e |-> e, rev |-> rev])
  \/ phase = "wait" /\ flight.kind = "single" /\ U /\ AnsSingle(Val(flight.m)) /\ A([k |-> "val"])
  \/ phase = "wait" /\ flight.kind = "single" /\ U /\ AnsSingle(Code(flight.m)) /\ A([k |-> "code"])
  \/ /\ phase = "wait" /\ flight.kind \in {"page", "pagebatch"} /\ U
     /\ \/ \E n \in 0..1 : AnsPage([m |-> flight.m, k |-> "list", tok |-> 0, n |-> n, total |-> 3, c |-> "none"])
             /\ A([k |-> "page", n |-> n])
        \/ AnsPage(Code(flight.m)) /\ A([k |-> "code"])
        \/ AnsPageMissing /\ A([k |-> "some", j |-> 0, e |-> FALSE, rev |-> FALSE])
  \/ U /\ \E c \in {"nobatch", "device"} : RefuseBatch(c) /\ A([k |-> "refuse", c |-> c])
  \/ U /\ Fault("conn") /\ A([k |-> "conn"])
Short == Len(hist.ans) <= MaxAns
GSpec == GInit /\ [][GNext]_gv
Emit == (phase = "idle" /\ nq = MaxQ) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
