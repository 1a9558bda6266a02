------------------------------ MODULE TraceLib ------------------------------
(* Batch trace validation: many recorded executions are validated in one TLC *)
(* run.  `tid' picks the trace in the initial state, `l' is the position of  *)
(* the next event to explain.  Track records the furthest position reached   *)
(* per trace; Report prints every trace that could not be explained fully.   *)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json, FiniteSets, SequencesExt
VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)

ASSUME RegistersReset == \A i \in 1..NTraces : TLCSet(i, 0)

Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)

TLInit == tid \in 1..NTraces /\ l = 1
IsEvent(name) == More /\ Ev.e = name /\ l' = l + 1 /\ tid' = tid
Silent == l' = l /\ tid' = tid

Track == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE

Report ==
  LET bad == SelectSeq([i \in 1..NTraces |-> <<i, TLCGet(i)>>],
                       LAMBDA p : p[2] # Len(Traces[p[1]].ev) + 1)
  IN PrintT("REPORT " \o ToJson([n |-> NTraces, bad |-> bad]))

NotAt == l # atoi(IOEnv.STOPAT)
=============================================================================
