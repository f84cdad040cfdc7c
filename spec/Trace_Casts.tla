---------------------------- MODULE Trace_Casts -----------------------------
EXTENDS TraceBase, Casts
Unit(k) == [s |-> "unit", k |-> k]
Ok(e) ==
  CASE e.op = "common" -> e.got = Common(e.a, e.b, e.bc) /\ e.can = Can(e.a, e.b, e.bc)
    [] e.op = "commonl" -> e.got = CommonL(e.ts, e.bc) /\ e.bq = Broadcast(e.ts, e.q)
    [] e.op = "props" ->
         LET t == e.t
             S == t \in Simple
             NS == e.n \in Simple /\ e.n.k = 0
         IN /\ e.scalar = (IF S THEN [s |-> t.s, k |-> 0] ELSE Null) /\ e.scalar2 = e.scalar
            /\ e.shape = (IF S THEN t.k ELSE -1) /\ e.shape2 = e.shape
            /\ e.decayc = (IF S THEN [s |-> t.s, k |-> 0] ELSE t)
            /\ e.with = (IF S /\ NS THEN [s |-> e.n.s, k |-> t.k] ELSE Null)
            /\ e.pres = (IF S THEN Unit(t.k) ELSE Null)
            /\ e.isopt = (S /\ t.k > 0)
            /\ e.toopt = (IF ~S THEN Null ELSE IF t.k = 0 THEN [s |-> t.s, k |-> 1] ELSE t)
            /\ e.decay = Decay(t)
            /\ e.isarr = (S /\ t.k >= 2)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
