-------------------------------- MODULE Child --------------------------------
(* Queries issued through the children of one parent: each query reaches the *)
(* parent wrapped with the id of the child it was issued through and with    *)
(* that child's requests only; the child's own answers come back unwrapped.  *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
  cq,     \* queries: id -> [ch, ms, retry, attempt, st, cls, res]
          \* st: "wait" | "sent" | "failed" | "answered" ; ch = 0: the parent itself
  order,  \* ids in the order in which they were issued, still running
  air     \* id of the query whose exchange is on the wire, 0 if none
cvars == <<cq, order, air>>
CInit == cq = <<>> /\ order = <<>> /\ air = 0
Retryable(c) == c \in {"conn", "timeout", "retryable"}
Upd(q, r) == cq' = [cq EXCEPT ![q] = r]

Call(ch, ms, n) ==
  /\ ms # <<>>
  /\ cq' = Append(cq, [ch |-> ch, ms |-> ms, retry |-> n, attempt |-> 0, st |-> "wait", cls |-> "none", res |-> {}])
  /\ order' = Append(order, Len(cq) + 1) /\ UNCHANGED air
\* the parent serves the queries one after the other
CanSend(q) == /\ order # <<>> /\ Head(order) = q /\ air = 0
              /\ \/ cq[q].st = "wait"
                \/ (cq[q].st = "failed" /\ Retryable(cq[q].cls) /\ cq[q].attempt < cq[q].retry)
Send(q, ch, ms) ==
  /\ CanSend(q) /\ ch = cq[q].ch /\ ms = cq[q].ms /\ air' = q /\ UNCHANGED order
  /\ Upd(q, [cq[q] EXCEPT !.st = "sent", !.attempt = IF @ = 0 /\ cq[q].st = "wait" THEN 0 ELSE @ + 1])
Land == air' = 0 /\ UNCHANGED order
\* the envelope fails: lost, timed out, refused by the parent
EnvFail(c) == air # 0 /\ Upd(air, [cq[air] EXCEPT !.st = "failed", !.cls = c]) /\ Land
\* the child as a whole refuses, or its answer makes no sense: never sent again
ChildFail(c) == air # 0 /\ Upd(air, [cq[air] EXCEPT !.st = "failed", !.cls = c, !.retry = 0]) /\ Land
\* items: sequence of [m, k, tok, c] with k in val | none | code
Answer(items) ==
  /\ air # 0
  /\ {items[i].m : i \in 1..Len(items)} \subseteq {cq[air].ms[i] : i \in 1..Len(cq[air].ms)}
  /\ LET q == cq[air]
         bad == {i \in 1..Len(items) : items[i].k = "code"}
     IN IF Len(q.ms) = 1 /\ bad # {}
        THEN Upd(air, [q EXCEPT !.st = "failed", !.cls = items[CHOOSE i \in bad : TRUE].c, !.retry = IF q.ch = 0 THEN @ ELSE 0])
        ELSE Upd(air, [q EXCEPT !.st = "answered",
                                !.res = {[m |-> items[i].m, k |-> items[i].k, tok |-> items[i].tok] : i \in 1..Len(items)}])
  /\ Land
Over == order' = Tail(order) /\ UNCHANGED <<cq, air>>
Ok(q, res) == order # <<>> /\ Head(order) = q /\ cq[q].st = "answered" /\ res = cq[q].res /\ Over
Err(q, c) == /\ order # <<>> /\ Head(order) = q /\ cq[q].st = "failed"
             /\ cq[q].cls \in {c, "any"}
             /\ (~Retryable(cq[q].cls) \/ cq[q].attempt >= cq[q].retry)
             /\ Over

(* Properties *)
OneOnAir == Cardinality({i \in 1..Len(cq) : cq[i].st = "sent"}) <= 1
OwnMethods == \A i \in 1..Len(cq) : \A r \in cq[i].res : \E j \in 1..Len(cq[i].ms) : cq[i].ms[j] = r.m
AirIsHead == air # 0 => order # <<>> /\ Head(order) = air
Attempts == \A i \in 1..Len(cq) : cq[i].attempt <= cq[i].retry \/ cq[i].st = "failed"
=============================================================================
