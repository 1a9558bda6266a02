------------------------------- MODULE Pairing -------------------------------
(* Pairing devices with a hub and removing them.  Times in milliseconds.     *)
EXTENDS Integers, FiniteSets
CONSTANTS Slack
VARIABLES kids, near, ph, at, wait, found, known, now
pvars == <<kids, near, ph, at, wait, found, known, now>>
\* kids: what the hub has; near: devices in pairing mode around it; known: the children that the library shows
\* ph: "idle" | "called" | "scan" | "asked" | "added" | "failed" | "remove" | "removed"
PInit(k) == kids = k /\ near = {} /\ ph = "idle" /\ at = 0 /\ wait = 0 /\ found = {} /\ known = k /\ now = 0

\* the surroundings: a device is put into pairing mode (or leaves it); the hub loses or gains a child through the app
Near(n) == near' = n /\ UNCHANGED <<kids, ph, at, wait, found, known, now>>
Elsewhere(k) == ph = "idle" /\ kids' = k /\ UNCHANGED <<near, ph, at, wait, found, known, now>>

Pair(w) == ph = "idle" /\ ph' = "called" /\ wait' = w /\ found' = {} /\ UNCHANGED <<kids, near, at, known, now>>
Scan(ok) == ph = "called" /\ ph' = (IF ok THEN "scan" ELSE "failed") /\ at' = now /\ UNCHANGED <<kids, near, wait, found, known, now>>
\* the hub tells what it detected; sup: what belongs to the categories it supports
Ask(ok, sup) == ph = "scan" /\ now >= at + wait /\ ph' = (IF ok THEN "asked" ELSE "failed") /\ found' = (IF ok THEN near \cap sup ELSE {})
                /\ UNCHANGED <<kids, near, at, wait, known, now>>
\* acc: those of the added devices that the hub really takes
Add(ok, s, acc) == ph = "asked" /\ found # {} /\ s = found /\ acc \subseteq found /\ ph' = (IF ok THEN "added" ELSE "failed")
                   /\ kids' = (IF ok THEN kids \cup acc ELSE kids) /\ UNCHANGED <<near, at, wait, found, known, now>>
\* shown: the children that the library can represent
PairEnds(s, shown) == ph \in {"asked", "added"} /\ (ph = "asked" => found = {}) /\ ph' = "idle" /\ s = found \cap kids \cap shown
               /\ known' \in (IF ph = "added" THEN {kids} ELSE {known, kids}) /\ UNCHANGED <<kids, near, at, wait, found, now>>
Failed == ph = "failed" /\ ph' = "idle" /\ known' \in {known, kids} /\ UNCHANGED <<kids, near, at, wait, found, now>>
\* given up by the caller while waiting: nothing more happens
GiveUp == ph \in {"called", "scan"} /\ ph' = "idle" /\ UNCHANGED <<kids, near, at, wait, found, known, now>>
Unpair(id) == ph = "idle" /\ ph' = "remove" /\ found' = {id} /\ UNCHANGED <<kids, near, at, wait, known, now>>
Remove(ok, s) == ph = "remove" /\ s = found /\ ph' = (IF ok THEN "removed" ELSE "failed") /\ kids' = (IF ok THEN kids \ s ELSE kids) /\ UNCHANGED <<near, at, wait, found, known, now>>
UnpairEnds == ph = "removed" /\ ph' = "idle" /\ known' = kids /\ UNCHANGED <<kids, near, at, wait, found, now>>
Update == ph = "idle" /\ known' = kids /\ UNCHANGED <<kids, near, ph, at, wait, found, now>>
Tick(t) == t >= now /\ (ph = "scan" => t <= at + wait + Slack) /\ (ph \notin {"idle", "scan"} => t <= now + Slack) /\ now' = t
           /\ UNCHANGED <<kids, near, ph, at, wait, found, known>>
=============================================================================
