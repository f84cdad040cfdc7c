---------------------------- MODULE Trace_Forest ----------------------------
EXTENDS TraceBase, Forest
Used(e) == {c.in : c \in CondsOf(e.trees)}
Expected(e) == [i \in 1..Len(e.filters) |-> [j \in 1..Len(e.rows) |-> Eval(e.trees, e.filters[i], e.rows[j])]]
Evaluated(e) ==
  LET want == Expected(e)
      ok == Len(e.filters) > 0 /\ Disjoint(e.trees, e.filters)
      groups(r) == IF r.ok THEN ok /\ r.v = want ELSE ~ok IN
  /\ e.naive = want
  \* without the general algorithm some forests are not supported
  /\ \A i \in 1..Len(e.pw) : IF e.pw[i].reg \/ e.pw[i].ok THEN groups(e.pw[i]) ELSE TRUE
  /\ e.simple => e.sv = [j \in 1..Len(e.rows) |-> Eval(e.trees, All, e.rows[j])]
  /\ groups(e.op)
  /\ \A i \in 1..Len(e.batch) : groups(e.batch[i])
Good(e) ==
  /\ e.steps = Largest({t.step : t \in Ran(e.trees)})
  /\ e.subs = Largest({t.sub : t \in Ran(e.trees)})
  /\ \A i \in 1..Len(e.types) : e.req[i] = (\E c \in CondsOf(e.trees) : c.in = i - 1 /\ TypeOf(c) = e.types[i])
  /\ e.slots = (\A c \in CondsOf(e.trees) : TypeOf(c) = e.types[c.in + 1])
  /\ e.slots => Evaluated(e)
Ok(e) == e.valid = Valid(e.trees) /\ (e.valid => Good(e))
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
