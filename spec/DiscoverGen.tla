---------------------------- MODULE DiscoverGen ----------------------------
EXTENDS DiscoverMC, Json
VARIABLES hist, dur
gv == <<mv, hist, dur>>
GInit == MInit /\ hist = <<>> /\ dur \in [Hosts -> 0..2]
GNext ==
  \/ /\ nrecv < MaxRecv /\ nrecv' = nrecv + 1 /\ UNCHANGED <<ncb, dur>>
     /\ \E h \in Hosts, p \in 0..2, k \in {"dev", "unsup", "invalid"}, t \in T :
          Recv(h, p, k, "c", k # "invalid", t) /\ hist' = Append(hist, [h |-> h, p |-> p, k |-> k, t |-> t])
  \/ (MSend \/ MRaw \/ MCb \/ MCbEnd \/ MClose \/ MTick \/ MUnsup \/ MUnsupEnd \/ MRet) /\ UNCHANGED <<hist, dur>>
GSpec == GInit /\ [][GNext]_gv
Emit == ph = "done" => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, d |-> hist, dur |-> dur]))
=============================================================================
