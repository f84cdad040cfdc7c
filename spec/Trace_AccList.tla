---------------------------- MODULE Trace_AccList ----------------------------
EXTENDS TraceBase, AccList

Shown(c) == [name |-> c.name, lam |-> c.c.lam, inc |-> c.c.inc, pp |-> c.c.pp, ty |-> c.c.ty, df |-> c.c.df]
Got(x) == [name |-> x.name, lam |-> x.lam, inc |-> Range1(x.inc), pp |-> x.pp, ty |-> x.ty, df |-> x.df]
GotAll(s) == Map(Got, s)

OkList(e) ==
  LET acc == e.acc
      want == Map(Shown, Canon(acc)) IN
  IF Rejected(acc)
  THEN /\ e.err = "ValueError"
       /\ (\A i \in 1..Len(acc) : ~Nameless(acc[i])) => Range1(e.named) = Conflicts(acc)
  ELSE /\ e.err = ""
       /\ GotAll(e.out) = want
       /\ e.names = [i \in 1..Len(want) |-> want[i].name]
       /\ e.len = Len(want) /\ e.na = Len(want)
       /\ \A i \in 1..Len(e.same) : e.same[i]
       /\ e.incs = Includes(acc)
       /\ GotAll(e.again) = want
       /\ (e.k > 0 => Map(GotAll, e.shards) = Chunks(want, e.k))
       /\ EvenSplit(want, e.n, Map(GotAll, e.split))

OkAcc(e) ==
  LET a == Content(e.a)
      b == Content(e.b) IN
  /\ e.a.pp = <<>> => e.lam = a.lam /\ Range1(e.inc) = a.inc
  /\ e.eq = (a = b) /\ e.ne = (a # b) /\ ~e.eqo
  /\ IF e.a.d = <<>> THEN e.dn.err = "ValueError"
     ELSE e.dn.err = "" /\ e.dn.v = e.a.d

OkPath(e) ==
  /\ e.lam = Pretty(Split(Cp("[](const auto& input) { return input") \o e.path \o Cp("; }"), <<NL>>))
  /\ e.inc = 0
  /\ e.dn = e.d

Ok(e) == CASE e.op = "list" -> OkList(e)
           [] e.op = "acc" -> OkAcc(e)
           [] e.op = "path" -> OkPath(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
==============================================================================
