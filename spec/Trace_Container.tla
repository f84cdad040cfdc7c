--------------------------- MODULE Trace_Container ---------------------------
EXTENDS TraceSession, Container
vars == <<b, l, c>>
Obs == Ev.got = c'
TNext ==
  \/ Is("begin") /\ UNCHANGED c /\ Obs
  \/ Is("resize") /\ Resize(Ev.n) /\ Obs
  \/ Is("set") /\ Set(Ev.i, Ev.v) /\ Obs
  \/ Is("add") /\ AddElem(Ev.v) /\ Obs
  \/ AtEnd /\ UNCHANGED vars
TSpec == SessionInit /\ c = <<>> /\ [][TNext]_vars
=============================================================================
