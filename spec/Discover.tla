------------------------------ MODULE Discover ------------------------------
(* UDP discovery: probe rounds, one outcome per host, callbacks, end.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* [single, target, timeout, packets, ondisc, onunsup, onraw]; times in ms, target a host name
  ph,      \* "run" | "done"
  now,
  sent,    \* datagrams sent
  out,     \* host -> [k, cls]: outcome of each host that answered; k \in {"dev","unsup","invalid"}
  stop,    \* time at which the discovery is over: the target answered or the timeout
  need,    \* a callback that has to run before anything else: host of the raw callback or ""
  due,     \* callbacks to be started: set of hosts
  running, \* callbacks running
  called,  \* callbacks started
  closed
dvars == <<cfg, ph, now, sent, out, stop, need, due, running, called, closed>>
DInit(c) == /\ cfg = c /\ ph = "run" /\ now = 0 /\ sent = 0 /\ out = [x \in {} |-> 0] /\ stop = c.timeout
            /\ need = "" /\ due = {} /\ running = {} /\ called = {} /\ closed = FALSE
Target == cfg.target \in DOMAIN out
\* virtual time may only pass when nothing has to happen now
Step(t) == t >= now /\ now' = t /\ need = "" /\ (t > now => due = {})
Round == sent \div 2
Interval == cfg.timeout \div cfg.packets
\* two datagrams per round, first to the legacy port
Send(p, t) ==
  /\ ph = "run" /\ ~closed /\ Step(t) /\ ~Target /\ sent < 2 * cfg.packets
  /\ p = 1 + (sent % 2)
  \* the rounds are spread evenly (times are rounded to ms)
  /\ t * cfg.packets - Round * cfg.timeout < cfg.packets /\ Round * cfg.timeout - t * cfg.packets < cfg.packets
  /\ sent' = sent + 1 /\ UNCHANGED <<cfg, ph, out, stop, need, due, running, called, closed>>
\* an answer of host h from port p (1: legacy, 2: new, 0: any other port)
Recv(h, p, k, cls, raw, t) ==
  /\ ph = "run" /\ ~closed /\ Step(t)
  /\ IF p = 0 \/ h \in DOMAIN out
     THEN UNCHANGED <<out, stop, need, due>>
     ELSE /\ out' = [x \in DOMAIN out \cup {h} |-> IF x = h THEN [k |-> k, cls |-> cls] ELSE out[x]]
          /\ stop' = (IF h = cfg.target /\ t < stop THEN t ELSE stop)
          /\ need' = (IF raw /\ cfg.onraw THEN h ELSE "")
          /\ due' = (IF ~cfg.single /\ ((k = "dev" /\ cfg.ondisc) \/ (k = "unsup" /\ cfg.onunsup)) THEN due \cup {h} ELSE due)
  /\ UNCHANGED <<cfg, ph, sent, running, called, closed>>
Raw(h, t) == ph = "run" /\ need = h /\ h # "" /\ t = now /\ need' = "" /\ UNCHANGED <<cfg, ph, now, sent, out, stop, due, running, called, closed>>
Cb(h, k, t) ==
  /\ ph = "run" /\ t = now /\ need = "" /\ h \in due \ called /\ out[h].k = k
  /\ due' = due \ {h} /\ running' = running \cup {h} /\ called' = called \cup {h}
  /\ UNCHANGED <<cfg, ph, now, sent, out, stop, need, closed>>
CbEnd(h, t) == /\ ph = "run" /\ Step(t) /\ h \in running /\ running' = running \ {h}
               /\ UNCHANGED <<cfg, ph, sent, out, stop, need, due, called, closed>>
\* every probe round has been sent, unless the target answered
Over(t) == t >= stop /\ (Target \/ sent = 2 * cfg.packets) /\ running = {} /\ due = {}
Close(t) == ph = "run" /\ ~closed /\ Step(t) /\ closed' = TRUE
            /\ UNCHANGED <<cfg, ph, sent, out, stop, need, due, running, called>>
\* the single discovery reports an unsupported device through the callback
SingleCb == cfg.single /\ cfg.onunsup /\ Target /\ out[cfg.target].k = "unsup"
UnsupCb(t) == /\ ph = "run" /\ closed /\ t = now /\ SingleCb /\ cfg.target \notin called
              /\ called' = called \cup {cfg.target} /\ running' = {cfg.target}
              /\ UNCHANGED <<cfg, ph, now, sent, out, stop, need, due, closed>>
UnsupCbEnd(t) == /\ ph = "run" /\ closed /\ t >= now /\ now' = t /\ running = {cfg.target} /\ SingleCb /\ running' = {}
                 /\ UNCHANGED <<cfg, ph, sent, out, stop, need, due, called, closed>>
Devs == {h \in DOMAIN out : out[h].k = "dev"}
\* r: [k, devs]
Ret(k, devs, t) ==
  /\ ph = "run" /\ closed /\ t = now /\ ph' = "done" /\ running = {}
  /\ IF cfg.single THEN
        /\ k = (IF ~Target THEN "timeout"
                ELSE IF SingleCb /\ cfg.target \in called THEN "none"
                ELSE IF SingleCb THEN "-" ELSE out[cfg.target].k)
        /\ (k = "dev" => devs = {<<cfg.target, out[cfg.target].cls>>})
     ELSE k = "devs" /\ devs = {<<h, out[h].cls>> : h \in Devs}
  /\ UNCHANGED <<cfg, now, sent, out, stop, need, due, running, called, closed>>
\* the caller gave up: the socket is closed all the same
Cancelled(t) == ph = "run" /\ closed /\ (t = now \/ (t > now /\ running # {})) /\ ph' = "done" /\ now' = t
                /\ UNCHANGED <<cfg, sent, out, stop, need, due, running, called, closed>>
=============================================================================
