------------------------------ MODULE ChildGen ------------------------------
EXTENDS ChildMC, TLC, Json
CONSTANT MaxAns
VARIABLES hist
gv == <<mv, hist>>
GInit == MInit /\ hist = [q |-> <<>>, ans |-> <<>>]
A(x) == hist' = [hist EXCEPT !.ans = Append(@, x)]
GNext ==
  \/ /\ Len(order) < 2 /\ MCall
     /\ LET r == cq'[Len(cq')] IN
          hist' = [hist EXCEPT !.q = Append(@, [ch |-> r.ch, ms |-> r.ms, retry |-> r.retry, par |-> order # <<>>])]
  \/ (MSend \/ MOk \/ MErr) /\ UNCHANGED hist
  \/ U /\ \E c \in {"conn", "retryable", "device"} : EnvFail(c) /\ A([k |-> "env", c |-> c])
  \/ U /\ \E c \in {"retryable", "device"} : ChildFail(c) /\ A([k |-> "child", c |-> c])
  \/ /\ air # 0 /\ U
     /\ \E j \in 0..Len(cq[air].ms) : \E e \in 0..j :
          Answer([i \in 1..j |-> Item(cq[air].ms[i], i = e)]) /\ A([k |-> "ans", j |-> j, e |-> e])
GSpec == GInit /\ [][GNext]_gv
Short == Len(hist.ans) <= MaxAns
Emit == (order = <<>> /\ Len(cq) = MaxQ) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
