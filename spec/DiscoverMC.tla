----------------------------- MODULE DiscoverMC -----------------------------
EXTENDS Discover
CONSTANTS Hosts, Single, MaxRecv
VARIABLES nrecv, ncb   \* ncb: host -> number of callbacks run
mv == <<dvars, nrecv, ncb>>
Cfgs == {[single |-> Single, target |-> tg, timeout |-> 4, packets |-> p, ondisc |-> TRUE, onunsup |-> u, onraw |-> TRUE] :
         tg \in (IF Single THEN Hosts ELSE Hosts \cup {"*"}), p \in {1, 2}, u \in BOOLEAN}
MInit == (\E c \in Cfgs : DInit(c)) /\ nrecv = 0 /\ ncb = [h \in Hosts |-> 0]
U == UNCHANGED <<nrecv, ncb>>
NextSend == IF ~Target /\ sent < 2 * cfg.packets THEN Round * Interval ELSE 1000
\* time passes only up to the next thing that is due
T == {t \in now..(now + 1) : t <= NextSend /\ (t > now => due = {} /\ need = "" /\ ~(Over(now) /\ ~closed)) /\ t <= cfg.timeout + 2}
MSend == (\E p \in {1, 2}, t \in T : Send(p, t)) /\ U
MRecv == nrecv < MaxRecv /\ nrecv' = nrecv + 1 /\ UNCHANGED ncb
         /\ (\E h \in Hosts, p \in 0..2, k \in {"dev", "unsup", "invalid"}, t \in T : Recv(h, p, k, "c", k # "invalid", t))
MRaw == (\E h \in Hosts : Raw(h, now)) /\ U
MCb == (\E h \in Hosts, k \in {"dev", "unsup"} : Cb(h, k, now) /\ ncb' = [ncb EXCEPT ![h] = @ + 1]) /\ UNCHANGED nrecv
MCbEnd == (\E h \in Hosts, t \in T : CbEnd(h, t)) /\ U
MClose == Over(now) /\ Close(now) /\ U
MTick == ~closed /\ ph = "run" /\ (\E t \in T : t > now /\ now' = t) /\ UNCHANGED <<cfg, ph, sent, out, stop, need, due, running, called, closed>> /\ U
MUnsup == UnsupCb(now) /\ U
MUnsupEnd == UnsupCbEnd(now) /\ U
MRet == (\E k \in {"timeout", "none", "dev", "unsup", "invalid", "devs"}, d \in {{}, {<<cfg.target, "c">>}, {<<h, "c">> : h \in Devs}} : Ret(k, d, now)) /\ U
MNext == MSend \/ MRecv \/ MRaw \/ MCb \/ MCbEnd \/ MClose \/ MTick \/ MUnsup \/ MUnsupEnd \/ MRet
MSpec == MInit /\ [][MNext]_mv /\ WF_mv(MSend \/ MRaw \/ MCb \/ MClose \/ MTick \/ MUnsup \/ MUnsupEnd \/ MRet) /\ WF_mv(MCbEnd)
Ends == <>(ph = "done")
RoundsBound == sent <= 2 * cfg.packets
OneOutcome == [][\A h \in DOMAIN out : h \in DOMAIN out' /\ out'[h] = out[h]]_mv
CallbackOnce == \A h \in Hosts : ncb[h] <= 1 /\ (ncb[h] = 1 => h \in DOMAIN out)
Finished == ph = "done" => running = {} /\ due = {} /\ closed
CallbacksRun == ph = "done" /\ ~cfg.single => \A h \in Devs : ncb[h] = 1
\* without running callbacks the end is the timeout at the latest
InTime == ph = "run" /\ ~closed /\ running = {} /\ due = {} /\ called = {} => now <= cfg.timeout
=============================================================================
