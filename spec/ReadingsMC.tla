------------------------------ MODULE ReadingsMC ------------------------------
(* Two devices with a few of the quantities, and what is told of them          *)
EXTENDS Readings
CONSTANTS MaxChg, MaxOps
VARIABLES told, ops, last
mv == <<rvars, told, ops, last>>
\* power by three ways; a vacuum's error and status; a slowly asked one
Raws == {[cp |-> a, pm |-> b, gp |-> c, errs |-> e, st |-> s, cl |-> k] :
           a \in {None, 7}, b \in {None, 9}, c \in {None, 2}, e \in {<<>>, <<3>>, <<9, 2>>}, s \in {1, 9}, k \in {0, 1}}
Some == {r \in Raws : (r.cp = None) = (r.errs = <<>>) /\ (r.pm = None => r.st = 1) /\ (r.cl = 0 => r.gp = None)}
Qs == {"power", "error", "status", "cloud"}
\* told: what was told last, per device and reading
MInit == RInit(2) /\ told = [d \in 1..2 |-> [q \in Qs |-> None]] /\ ops = 0 /\ last = [a |-> "init", d |-> 1, q |-> "power"]
Op(a, d, q) == ops' = ops + 1 /\ last' = [a |-> a, d |-> d, q |-> q]
DoChange(d, r) == ops < MaxOps /\ Len(raw[d]) < MaxChg /\ Change(d, r) /\ Op("change", d, "power") /\ UNCHANGED told
DoPoll(d, long) == ops < MaxOps /\ Poll(d, long) /\ Op("poll", d, "power") /\ UNCHANGED told
DoFail(d) == ops < MaxOps /\ fast[d] # {} /\ PollFailed(d) /\ Op("fail", d, "power") /\ UNCHANGED told
DoRead(d, q, v) == ops < MaxOps /\ Read(d, q, v) /\ told' = [told EXCEPT ![d][q] = v] /\ Op("read", d, q)
Values(d, q) == {Told(q, raw[d][i]) : i \in Cand(d, q)} \cup (IF bad[d] THEN {Fails} ELSE {})
MNext == \E d \in 1..2 :
  \/ \E r \in Some : DoChange(d, r)
  \/ \E long \in BOOLEAN : DoPoll(d, long)
  \/ DoFail(d)
  \/ \E q \in Qs : \E v \in Values(d, q) : DoRead(d, q, v)
MSpec == MInit /\ [][MNext]_mv
\* what is told does not change between updates unless one failed
Reading(q) == last'.a = "read" /\ last'.q = q
Fresh == [][\A q \in Qs \ Slow : (~bad[last.d] /\ last'.a = "read" /\ last'.q = q /\ last.a = "poll" /\ last.d = last'.d) => told'[last.d][q] = Told(q, Last(raw[last.d]))]_mv
\* a change is not told before the next update
Settled == \A d \in 1..2 : (~bad[d] /\ raw[d] # <<>>) => Cardinality(fast[d]) <= 1
\* an error is always told as one, and an unknown status never as a known one
Honest == [][(last'.a = "read" /\ last'.q = "status" /\ told'[last'.d]["status"] # Fails) => told'[last'.d]["status"] \in {1, 100, Unknown}]_mv
\* one device never changes what is told of the other
Apart == [][\A d \in 1..2 : last'.d # d => fast'[d] = fast[d] /\ slow'[d] = slow[d] /\ told'[d] = told[d]]_mv
\* some power is told whenever the device gave any
Power == \A r \in Raws : (Told("power", r) = None) = (r.cp = None /\ r.pm = None /\ r.gp = None)
Err == \A r \in Raws : (Told("status", r) = 100) = (Told("error", r) # 0)
Laws == Power /\ Err
=============================================================================
