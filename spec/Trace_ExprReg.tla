--------------------------- MODULE Trace_ExprReg ---------------------------
EXTENDS TraceSession, ExprReg
vars == <<b, l, evars>>
TNext ==
  \/ Is("begin") /\ UNCHANGED evars
  \/ Is("ereg") /\ Ev.ok = CanEReg(Ev.name) /\ EReg(Ev.name, Ev.id)
  \/ Is("eref") /\ Ev.ok = CanEReg(Ev.name) /\ ERef(Ev.name, Ev.to)
  \/ Is("ealias") /\ Ev.ok = CanEAlias(Ev.name, Ev.to) /\ EAlias(Ev.name, Ev.to)
  \/ Is("eunreg") /\ EUnreg(Ev.name)
  \/ Is("elook") /\ Ev.ok = (Ev.name \in Registered) /\ Ev.same /\ UNCHANGED evars
  \/ Is("elist") /\ Ev.names = order /\ UNCHANGED evars
  \/ /\ Is("eimpl")
     /\ Ev.got = Direct(Ev.name)
     /\ LET id == Resolve(Ev.name)
        IN Ev.decay = id /\ Ev.doc = id /\ Ev.sig = (id # 0) /\ Ev.node = (id # 0)
     /\ UNCHANGED evars
  \/ Is("erev") /\ (Ev.name \in dirty => Ev.changed) /\ EObserve(Ev.name)
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ EInit) /\ [][TNext]_vars
=============================================================================
