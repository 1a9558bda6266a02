-------------------------------- MODULE CliTrace --------------------------------
EXTENDS Cli, TraceLib
TraceInit == TLInit /\ CInit(Tr.kind, Tr.st)
TraceNext ==
  \/ IsEvent("run") /\ Run(Ev.o, Ev.c, Ev.a, Ev.ans, Ev.chk, Ev.exit, Ev.conn, Ev.out, Ev.left) /\ st' = Ev.st
  \/ IsEvent("other") /\ Other(Ev.st)
  \/ IsEvent("refuse") /\ Refusing(Ev.b)
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tid, l>>
=============================================================================
