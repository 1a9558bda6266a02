---------------------------- MODULE ConnectTrace ----------------------------
EXTENDS Connect, TraceLib
KindOf(c) == <<c.p, c.t, c.c, c.h>>
\* the kinds are derived here, from the table
KindsOf(c) == IF c.mode = "all" THEN Kinds
              ELSE IF ProtoOf(c.fam, c.enc, c.https, FALSE) = None \/ ClassOf(c.fam, c.https, ~Iot(c.fam)) = "" THEN {}
              ELSE {<<ProtoOf(c.fam, c.enc, c.https, FALSE)[1], ProtoOf(c.fam, c.enc, c.https, FALSE)[2],
                      \* the system information decides for the legacy protocol without encryption
                      IF ProtoOf(c.fam, c.enc, c.https, FALSE)[2] = "XorTransport" THEN "IotPlug" ELSE ClassOf(c.fam, c.https, ~Iot(c.fam)), c.https>>}
FateOf(c, ks) == [k \in ks |-> LET s == {i \in 1..Len(c.fate) : c.fate[i].t = k[2] /\ c.fate[i].h = k[4]} IN c.fate[CHOOSE i \in s : TRUE].f]
TraceInit == TLInit /\ CInit(Tr.cfg.mode, KindsOf(Tr.cfg), FateOf(Tr.cfg, KindsOf(Tr.cfg)), Tr.cfg.cb)
Owner(c) == {k \in kinds : k[1] = c.p /\ k[2] = c.t /\ k[4] = c.h}
TraceNext ==
  \/ IsEvent("use") /\ \E k \in Owner(Ev) : Use(k)
  \/ IsEvent("open") /\ Open(Ev.r)
  \/ IsEvent("close") /\ Close(Ev.r)
  \/ IsEvent("report") /\ Reported(KindOf(Ev), Ev.good)
  \/ Silent /\ Next(cur)
  \/ IsEvent("gone") /\ Gone
  \/ IsEvent("ret") /\ Ev.good /\ (IF Ev.dev THEN Found(cur) /\ Ev.cls = cur[3] ELSE Nothing)
  \/ IsEvent("err") /\ \/ Ev.k = "unsup" /\ Unsupported
                       \/ Ev.k = (IF gone THEN "gone" ELSE "lib") /\ Fail
  \/ IsEvent("upd") /\ Ev.good /\ UNCHANGED cvars
  \/ IsEvent("disc") /\ Disconnected
  \/ IsEvent("end") /\ ph # "run" /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tid, l>>
=============================================================================
