------------------------------- MODULE Readings -------------------------------
(* What devices measure and what the library tells of it.  The raw data of a   *)
(* device changes at any time; the library has a copy of it as of its last     *)
(* update (some of it is asked for less often).  What is told of every reading *)
(* is a function of that copy of that one device.  Numbers are in thousandths  *)
(* of the unit told; texts are numbered.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -99999999      \* nothing is told: the device does not have it
Fails == -99999998     \* reading it fails
\* per device: all raw data so far; the versions the library may tell of (fast: asked for at every update); whether reading may fail
VARIABLES raw, fast, slow, bad
rvars == <<raw, fast, slow, bad>>
RInit(n) == raw = [d \in 1..n |-> <<>>] /\ fast = [d \in 1..n |-> {}] /\ slow = [d \in 1..n |-> {}] /\ bad = [d \in 1..n |-> FALSE]
\* the device measures something else
Change(d, r) == raw' = [raw EXCEPT ![d] = Append(@, r)] /\ UNCHANGED <<fast, slow, bad>>
\* an update; long: everything is due (after a failure some things are not asked for again at once)
Poll(d, long) == /\ raw[d] # <<>>
                 /\ fast' = [fast EXCEPT ![d] = (IF bad[d] /\ ~long THEN @ ELSE {}) \cup {Len(raw[d])}] /\ bad' = [bad EXCEPT ![d] = @ /\ ~long]
                 /\ slow' = [slow EXCEPT ![d] = (IF long THEN {} ELSE @) \cup {Len(raw[d])}] /\ UNCHANGED raw
\* an update that fails: the old data stays, or there is new data, or none
PollFailed(d) == /\ fast' = [fast EXCEPT ![d] = @ \cup {Len(raw[d])}] /\ slow' = [slow EXCEPT ![d] = @ \cup {Len(raw[d])}]
                 /\ bad' = [bad EXCEPT ![d] = TRUE] /\ UNCHANGED raw

\* ---- raw -> told
Or(a, b) == IF a # None THEN a ELSE b
Bool(b) == IF b THEN 1 ELSE 0
Last(s) == s[Len(s)]
\* the latest entry for a day or month
Entry(keys, vals, k, none) == LET S == {i \in DOMAIN keys : keys[i] = k} IN IF S = {} THEN none ELSE vals[CHOOSE i \in S : \A j \in S : j <= i]
ErrCodes == {0, 2, 3, 4, 6, 7, 14, 15, 16, 21, 22}
VacStates == {0, 1, 2, 4, 5, 6, 7, 8, 100}
Unknown == -1000
VacErr(r) == IF r.errs = <<>> THEN 0 ELSE IF r.errs[1] \in ErrCodes THEN r.errs[1] ELSE Unknown
\* thermostat states: 1 heating, 2 calibrating, 3 idle, 4 off, 5 unknown, 8 low battery (says nothing about what it does)
Trv(r) == LET S == {r.trv[i] : i \in DOMAIN r.trv} \ {8} IN
          IF r.frost = 1 THEN 4 ELSE IF S = {} THEN 3
          ELSE IF S \cap 1..5 = {} THEN 5 ELSE CHOOSE x \in S \cap 1..5 : \A y \in S \cap 1..5 : x <= y
Zones == <<540, 330, 345, 600, -420>>
Zone(r) == IF r.zone > 0 THEN Zones[r.zone] ELSE r.td
Mid(r) == (r.pmax - r.pmin) \div 2
PirV(r) == Mid(r) - r.adc
PirD(r) == IF PirV(r) < 0 THEN Mid(r) - r.pmin ELSE r.pmax - Mid(r)
Abs(x) == IF x < 0 THEN -x ELSE x
\* exceeds the threshold: -1 is a tie
PirT(r) == LET a == Abs(PirV(r)) * 100 b == (100 - r.thr[r.pidx + 1]) * PirD(r) IN IF r.pen = 0 THEN 0 ELSE IF a = b THEN -1 ELSE Bool(a > b)
Life == [roll |-> 400, edge |-> 200, filter |-> 200, sensor |-> 30, contact |-> 30]
Told(q, r) ==
  CASE q = "power" -> Or(r.cp, Or(r.pm, IF r.gp = None THEN None ELSE 1000 * r.gp))
    [] q = "stpower" -> (IF r.em = 1 THEN r.pm ELSE Or(r.cp, 0))
    [] q = "stvolt" -> (IF r.em = 1 THEN r.mv ELSE None)
    [] q = "stcur" -> (IF r.em = 1 THEN r.ma ELSE None)
    [] q = "sttotal" -> (IF r.em = 1 THEN None ELSE Or(r.te, 0))
    [] q = "offat" -> (IF r.aos = 1 THEN r.ts + r.aor ELSE None)
    [] q = "cloud" -> Bool(r.cl = 0)
    [] q = "overheated" -> (IF r.oh # None THEN Bool(r.oh # 0) ELSE r.ohb)
    [] q = "rssi" -> (IF r.rssi = 0 THEN None ELSE r.rssi)
    [] q = "ssid" -> (IF r.ssid = None THEN 0 ELSE r.ssid)
    [] q = "lat" -> Or(r.lat, 0)
    [] q = "lon" -> Or(r.lon, 0)
    [] q = "tz" -> Zone(r)
    [] q = "tempwarn" -> Bool(r.tex # None /\ r.tex # 0)
    [] q = "humwarn" -> Bool(r.hex # 0)
    [] q = "low" -> Or(r.alow, Or(r.ilow, Fails))
    [] q = "mode" -> Trv(r)
    [] q = "heat" -> 1 - r.frost
    [] q = "error" -> VacErr(r)
    [] q = "status" -> (IF VacErr(r) # 0 THEN 100 ELSE IF r.st \in VacStates THEN r.st ELSE Unknown)
    [] q = "binmode" -> (IF r.auto = 0 THEN Unknown ELSE r.bin)
    [] q \in {"lastat", "lasttime", "lastarea"} -> r.lrec[IF q = "lastat" THEN 1 ELSE IF q = "lasttime" THEN 2 ELSE 3]
    [] q = "recs" -> Len(r.rts)
    [] q = "recsum" -> (IF r.rts = <<>> THEN None ELSE r.rts[1] + Last(r.rarea))
    [] q = "rollleft" -> 60 * Life.roll - r.roll
    [] q = "edgeleft" -> 60 * Life.edge - r.edge
    [] q = "filterleft" -> 60 * Life.filter - r.filter
    [] q = "sensorleft" -> 60 * Life.sensor - r.sensor
    [] q = "contactleft" -> 60 * Life.contact - r.contact
    [] q = "logs" -> Len(r.lts)
    [] q = "firstlog" -> (IF r.lts = <<>> THEN None ELSE r.lts[1])
    [] q = "today" -> Entry(r.dk, r.dv, r.day, 0)
    [] q = "month" -> Entry(r.mk, r.mvs, r.mon, 0)
    [] q = "usetoday" -> Entry(r.uk, r.uv, r.day, None)
    [] q = "usemonth" -> Entry(r.umk, r.umv, r.mon, None)
    [] q = "pirmid" -> Mid(r)
    [] q = "pirvalue" -> PirV(r)
    [] q = "lpms" -> r.lpm
    [] q = "lmvs" -> r.lmv
    [] q = "lmas" -> r.lma
    [] q = "lwhs" -> r.lwh
    [] q = "thridx" -> r.thr[r.pidx + 1]
    [] q = "charging" -> Bool(r.chg # 0)
    [] OTHER -> r[q]
Slow == {"cloud", "logs", "firstlog"}
Close(q, v, r) == IF q = "pirpercent" THEN Abs(v * PirD(r) - 100000 * PirV(r)) <= PirD(r)
                  ELSE IF q = "pirtrig" THEN v = PirT(r) \/ (PirT(r) = -1 /\ v \in {0, 1})
                  ELSE v = Told(q, r)
Cand(d, q) == IF q \in Slow THEN slow[d] ELSE fast[d]
\* (whether the cloud can be reached is told as no when that cannot be asked; energy as not known)
Energy == {"power", "te", "me"}
Read(d, q, v) == /\ (bad[d] /\ (v = Fails \/ (q = "cloud" /\ v = 0) \/ (q \in Energy /\ v = None))) \/ \E i \in Cand(d, q) : Close(q, v, raw[d][i])
                 /\ UNCHANGED rvars
\* asked of the device directly: what it measures now; statistics of a day or month k
AskTold(q, r, k) ==
  CASE q \in {"daykwh", "daywh"} -> Entry(r.dk, r.dv, k, None)
    [] q \in {"monkwh", "monwh"} -> Entry(r.mk, r.mvs, k, None)
    [] q = "dayuse" -> Entry(r.uk, r.uv, k, None)
    [] q = "monuse" -> Entry(r.umk, r.umv, k, None)
    [] OTHER -> Told(q, r)
Ask(d, q, k, v) == v = AskTold(q, Last(raw[d]), k) /\ UNCHANGED rvars
=============================================================================
