----------------------------- MODULE BatchTrace -----------------------------
EXTENDS Batch, TraceLib
TraceInit == TLInit /\ BInit(Tr.cam, Tr.bs)
TraceNext ==
  \/ IsEvent("call") /\ Call(ToSet(Ev.ms), ToSet(Ev.force), Ev.retry)
  \/ IsEvent("send") /\ (CASE Ev.kind = "batch" -> SendBatch(Ev.ms)
                           [] Ev.kind = "single" -> SendSingle(Ev.m)
                           [] Ev.kind = "page" -> SendPage(Ev.m, Ev.start, Ev.batch)
                           [] OTHER -> FALSE)
  \/ IsEvent("ans") /\ (CASE flight.kind = "batch" -> AnsBatch(Ev.items)
                          [] flight.kind = "single" -> AnsSingle(Ev.items[1])
                          [] Ev.items = <<>> \/ Ev.items[1].k = "nokey" -> AnsPageMissing
                          [] OTHER -> AnsPage(Ev.items[1]))
  \/ IsEvent("refuse") /\ RefuseBatch(Ev.c)
  \/ IsEvent("fault") /\ Fault(Ev.c)
  \/ IsEvent("ok") /\ Ok(ToSet(Ev.res))
  \/ IsEvent("err") /\ Err(Ev.k)
  \/ IsEvent("end") /\ phase = "idle" /\ UNCHANGED bvars
TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, tid, l>>
=============================================================================
