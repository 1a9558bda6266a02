---------------------------- MODULE HubKidsTrace ----------------------------
EXTENDS HubKids, TraceLib
TraceInit == TLInit /\ HInit(Tr.kind = "strip")
C == Ev.children
Ix(id) == CHOOSE i \in 1..Len(C) : C[i].id = id
Objs == [id \in {C[i].id : i \in 1..Len(C)} |-> C[Ix(id)].obj]
TraceNext ==
  \/ IsEvent("update") /\ Begin
  \/ IsEvent("list") /\ List(Ev.err, Ev.kids)
  \/ IsEvent("comps") /\ Comps(Ev.err, Ev.ids)
  \/ IsEvent("kidfail") /\ KidFails(Ev.id)
  \/ /\ IsEvent("ok") /\ Cardinality(DOMAIN Objs) = Len(C) /\ Ok(Objs)
     /\ \A i \in 1..Len(C) : LET c == C[i] IN
          /\ c.tok = kids'[c.id].tok
          /\ c.own \in {"own", "err"}                     \* never another child's data
          /\ kids'[c.id].bad \/ c.own = "own"             \* usable
          /\ c.parent
  \/ IsEvent("err") /\ Ev.lib /\ Ev.info /\ Fails
  \/ IsEvent("end") /\ ph = "idle" /\ UNCHANGED hvars
TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, tid, l>>
=============================================================================
