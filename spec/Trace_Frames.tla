---------------------------- MODULE Trace_Frames -----------------------------
EXTENDS TraceSession, Frames
vars == <<b, l, fvars>>
Matches == /\ \A a \in 1..3 : Ev.vals[a] = mem'[a].val /\ Ev.guards[a]
TNext ==
  \/ Is("begin") /\ lay' = [i \in 1..3 |-> NoLay] /\ mem' = [i \in 1..3 |-> NoMem] /\ Matches
  \/ Is("nb") /\ Open(Ev.l)
  \/ Is("add") /\ Add(Ev.l, Ev.t, Ev.off, Ev.size, Ev.align)
  \/ Is("sub") /\ Sub(Ev.l, Ev.m, Ev.off)
  \/ Is("reg") /\ Reg(Ev.l, Ev.off, Ev.t, Ev.size, Ev.dup, Ev.ok)
  \/ Is("unreg") /\ ~Ev.ok /\ UNCHANGED fvars
  \/ Is("build") /\ Build(Ev.l, Ev.size, Ev.align)
  \/ Is("has") /\ lay[Ev.l].st = "built" /\ Ev.has = (<<Ev.off, Ev.t>> \in lay[Ev.l].regs) /\ UNCHANGED fvars
  \/ Is("alloc") /\ Alloc(Ev.a, Ev.l, Ev.n, FALSE, Ev.born, Ev.died) /\ Matches
  \/ Is("ma") /\ Ev.aligned /\ Alloc(Ev.a, Ev.l, 1, TRUE, Ev.born, Ev.died) /\ Matches
  \/ Is("move") /\ Move(Ev.a, Ev.b, Ev.born, Ev.died) /\ Ev.valid = <<TRUE, FALSE>> /\ Matches
  \/ Is("set") /\ Set(Ev.a, Ev.k, Ev.s, Ev.v) /\ Matches
  \/ Is("free") /\ Free(Ev.a, Ev.born, Ev.died) /\ Matches
  \/ AtEnd /\ (\A a \in 1..3 : mem[a].l = 0) /\ UNCHANGED vars
TSpec == (SessionInit /\ Init0) /\ [][TNext]_vars
=============================================================================
