--------------------------- MODULE Trace_Registry ---------------------------
EXTENDS TraceSession, Registry
vars == <<b, l, rvars>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* A family operator takes any inputs; others exactly their signature.
BindOk(e, id) ==
  IF id = -1 THEN e.bind = -1
  ELSE IF \E f \in fams : f.name = e.name THEN e.bind = 1
  ELSE e.bind = (IF Sig(e.name, id).ins = e.ins /\ Sig(e.name, id).out = e.out THEN 1 ELSE 0)
TNext ==
  \/ Is("begin") /\ UNCHANGED rvars
  \/ Is("reg") /\ Ev.ok = CanReg(Ev.name, Ev.ins, Ev.prio) /\ Reg(Ev.name, Ev.ins, Ev.out, Ev.prio, Ev.id)
  \/ Is("fam") /\ Fam(Ev.name, Ev.id, Ev.ok)
  \/ Is("list") /\ Names \subseteq ToSet(Ev.names) /\ Len(Ev.names) = Cardinality(ToSet(Ev.names)) /\ UNCHANGED rvars
  \/ Is("get") /\ LET id == Lookup(Ev.name, Ev.ins, Ev.out) IN Ev.got = id /\ BindOk(Ev, id)
               /\ UNCHANGED rvars
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ RInit) /\ [][TNext]_vars
=============================================================================
