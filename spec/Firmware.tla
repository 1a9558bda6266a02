------------------------------- MODULE Firmware -------------------------------
(* Checking for and installing a firmware update.  Times in milliseconds.    *)
EXTENDS Integers, Sequences
CONSTANTS Limit, Slack
VARIABLES cloud, known, busy, at, downloads, allowed, seen, told, now
fvars == <<cloud, known, busy, at, downloads, allowed, seen, told, now>>
\* known: what the last check established: "none" (nothing), "no", "yes"
\* seen: the states that the device answered during this update; told: how many of them the caller has been told
FInit == cloud = TRUE /\ known = "none" /\ busy = FALSE /\ at = 0 /\ downloads = 0 /\ allowed = 0 /\ seen = <<>> /\ told = 0 /\ now = 0
Available == cloud /\ known = "yes"
Final(s) == s <= 0
Cloud(c) == ~busy /\ cloud' = c /\ UNCHANGED <<known, busy, at, downloads, allowed, seen, told, now>>
\* a check without a proper answer establishes nothing
Check(r) == ~busy /\ known' = r /\ UNCHANGED <<cloud, busy, at, downloads, allowed, seen, told, now>>
Deny == ~busy /\ ~Available /\ UNCHANGED fvars
Begin == ~busy /\ Available /\ told = Len(seen) /\ busy' = TRUE /\ at' = now /\ allowed' = allowed + 1 /\ seen' = <<>> /\ told' = 0 /\ UNCHANGED <<cloud, known, downloads, now>>
Download == busy /\ downloads < allowed /\ seen = <<>> /\ downloads' = downloads + 1 /\ UNCHANGED <<cloud, known, busy, at, allowed, seen, told, now>>
\* the device refuses to start
Refused == busy /\ downloads = allowed /\ seen = <<>> /\ busy' = FALSE /\ UNCHANGED <<cloud, known, at, downloads, allowed, seen, told, now>>
Done == Len(seen) > 0 /\ Final(seen[Len(seen)])
Answer(s) == busy /\ downloads = allowed /\ ~Done /\ seen' = Append(seen, s) /\ UNCHANGED <<cloud, known, busy, at, downloads, allowed, told, now>>
Lost == busy /\ downloads = allowed /\ ~Done /\ UNCHANGED fvars
Tell(s) == told < Len(seen) /\ s = seen[told + 1] /\ told' = told + 1 /\ UNCHANGED <<cloud, known, busy, at, downloads, allowed, seen, now>>
Finish(s) == busy /\ Done /\ s = seen[Len(seen)] /\ busy' = FALSE /\ UNCHANGED <<cloud, known, at, downloads, allowed, seen, told, now>>
Expire == busy /\ ~Done /\ now >= at + Limit /\ busy' = FALSE /\ UNCHANGED <<cloud, known, at, downloads, allowed, seen, told, now>>
Cancelled == busy /\ busy' = FALSE /\ UNCHANGED <<cloud, known, at, downloads, allowed, seen, told, now>>
\* time passes; not beyond the end of a running update
Tick(t) == t >= now /\ (busy => t <= at + Limit + Slack) /\ (busy /\ Done => t = now) /\ now' = t /\ UNCHANGED <<cloud, known, busy, at, downloads, allowed, seen, told>>
OnlyAllowed == downloads <= allowed
InOrder == told <= Len(seen)
NothingAfterEnd == \A i \in 1..(Len(seen) - 1) : ~Final(seen[i])
=============================================================================
