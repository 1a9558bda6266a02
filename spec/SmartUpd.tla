------------------------------ MODULE SmartUpd ------------------------------
(* Updating a SMART device: negotiation, module polling intervals, error     *)
(* accounting per module, falling back to individual queries, recovery.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT DisableAt
VARIABLES
  mt,      \* module table: sequence of [n, ms, q1, int, kind, first, opt]; kind in "std" | "device"
  child,   \* a child: its info comes from the parent, nothing is negotiated
  cam,     \* a camera: other methods are negotiated
  neg,     \* negotiation done
  lut,     \* module -> time of its last query, -1: none or refresh requested
  ecnt,    \* module -> errors in a row
  st,      \* method -> token of the last answer, -1 error code, absent: never answered
  ph,      \* "idle" | "nego" | "main" | "indiv" | "done" | "raise"
  now, first,
  pend,    \* methods still to be queried individually
  asked,   \* methods queried in the main query of this update
  ans      \* answers of this update: method -> token or -1
uvars == <<mt, child, cam, neg, lut, ecnt, st, ph, now, first, pend, asked, ans>>

M == 1..Len(mt)
Info == IF cam THEN "getDeviceInfo" ELSE "get_device_info"
Nego == IF cam THEN "getAppComponentList" ELSE "component_nego"
NegoMs == {Nego, Info, IF cam THEN "getConnectionType" ELSE "get_connect_cloud_state"}
Empty == [x \in {} |-> 0]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
UInit(table, c, k) ==
  /\ cam = k /\ mt = table /\ child = c /\ neg = c /\ lut = [m \in 1..Len(table) |-> -1] /\ ecnt = [m \in 1..Len(table) |-> 0]
  /\ st = Empty /\ ph = "idle" /\ now = 0 /\ first = FALSE /\ pend = {} /\ asked = {} /\ ans = Empty

Disabled(m) == ecnt[m] >= DisableAt
Interval(m) == IF ecnt[m] > 0 THEN 30000 * ecnt[m] ELSE mt[m].int
Due(m, t) == /\ mt[m].ms # {} /\ ~Disabled(m)
             /\ \/ Interval(m) = 0
                \/ lut[m] = -1
                \/ t - lut[m] >= Interval(m)
\* modules whose methods were just negotiated are not queried again
Skip(m) == first /\ mt[m].first
Queried == {m \in M : Due(m, now) /\ ~Skip(m)}
Wanted == UNION {mt[m].ms : m \in Queried}
\* what reading the module gives: its methods' answers, or an error
Bad(m, s) == \E x \in mt[m].ms : IF x \in DOMAIN s THEN s[x] = -1 /\ x \notin mt[m].opt ELSE FALSE
Unknown(m, s) == mt[m].q1 # "" /\ mt[m].q1 \notin DOMAIN s
DataOk(m, s) == ~Bad(m, s) /\ ~Unknown(m, s)
Data(m, s) == {<<x, s[x]>> : x \in {y \in mt[m].ms : y \in DOMAIN s /\ s[y] # -1}}

Update(t) ==
  /\ ph = "idle" /\ t >= now /\ now' = t /\ first' = ~neg
  /\ ph' = (IF neg THEN "main" ELSE "nego") /\ asked' = {} /\ ans' = Empty /\ pend' = {}
  /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, st>>
\* answers r: method -> token or -1
NegoOk(ms, r) ==
  /\ ph = "nego" /\ ms = NegoMs /\ st' = Over(st, r)
  /\ IF r[Nego] = -1 \/ r[Info] = -1
     THEN ph' = "raise" /\ UNCHANGED <<neg, lut, ecnt>>
     ELSE /\ neg' = TRUE /\ ph' = "main"
          \* the modules are set up from scratch; the cloud module has been queried already
          /\ lut' = [m \in M |-> IF mt[m].first THEN now ELSE -1]
          /\ ecnt' = [m \in M |-> IF mt[m].first /\ mt[m].kind = "std" /\ ~DataOk(m, st') THEN 1 ELSE 0]
  /\ UNCHANGED <<mt, child, cam, now, first, pend, asked, ans>>
NegoFail == ph = "nego" /\ ph' = "raise" /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, st, now, first, pend, asked, ans>>
MainOk(ms, r) ==
  /\ ph = "main" /\ ms = Wanted /\ asked' = ms /\ DOMAIN r = ms /\ ans' = r /\ ph' = "done"
  /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, st, now, first, pend>>
MainFail(ms) ==
  /\ ph = "main" /\ ms = Wanted /\ ms # {} /\ asked' = ms /\ pend' = ms /\ ph' = "indiv"
  /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, st, now, first, ans>>
\* after a failed query every method is asked for on its own
Single(x, tok) ==
  /\ ph = "indiv" /\ x \in pend /\ pend' = pend \ {x} /\ ans' = Over(ans, x :> tok)
  /\ ph' = (IF pend' = {} THEN "done" ELSE "indiv")
  /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, st, now, first, asked>>
NoQuery == /\ ph = "main" /\ Wanted = {} /\ ph' = "done" /\ asked' = {}
           /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, st, now, first, pend, ans>>

InfoOk == child \/ first \/ (Info \in DOMAIN ans /\ ans[Info] # -1)
NewSt == Over(st, ans)
Finish ==
  /\ ph = "done" /\ InfoOk /\ ph' = "idle" /\ st' = NewSt
  /\ lut' = [m \in M |-> IF m \in Queried THEN now ELSE lut[m]]
  /\ ecnt' = [m \in M |-> IF Disabled(m) THEN ecnt[m]
                          ELSE IF mt[m].kind = "device" \/ DataOk(m, NewSt) THEN 0
                          ELSE IF m \in Queried THEN ecnt[m] + 1 ELSE ecnt[m]]
  /\ UNCHANGED <<mt, child, cam, neg, now, first, pend, asked, ans>>
Raise ==
  /\ \/ ph = "raise" /\ UNCHANGED st
     \/ ph = "done" /\ ~InfoOk /\ st' = NewSt
  /\ ph' = "idle" /\ UNCHANGED <<mt, child, cam, neg, lut, ecnt, now, first, pend, asked, ans>>
\* a setting was changed: the module is refreshed with the next update
Touch(m) == ph = "idle" /\ lut' = [lut EXCEPT ![m] = -1]
            /\ UNCHANGED <<mt, child, cam, neg, ecnt, st, ph, now, first, pend, asked, ans>>
=============================================================================
