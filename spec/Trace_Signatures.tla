-------------------------- MODULE Trace_Signatures --------------------------
EXTENDS TraceBase, Signatures
Rest(e, g) ==
  /\ e.sig = g
  /\ e.variadic = HasVar(g)
  /\ e.spec = Text(g)
  /\ e.aux = Aux(g)
  /\ Plain(g) => e.again
  /\ \A k \in 0..6 : e.deps[k + 1] = DepsOk(g, k)
  /\ \A i \in 1..Len(e.binds) :
       LET q == e.binds[i]
       IN /\ q.ok = BindOk(g, q.n, q.kw)
          /\ q.ok => q.got = Bind(g, q.n, q.kw)
          /\ q.same
Num(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + (k \div 10), 48 + (k % 10)>>
Arg == <<97, 114, 103>>
ArgsN(k) == [params |-> IF k < 0 THEN <<[n |-> Arg \o <<115>>, d |-> 0, v |-> TRUE]>>
                        ELSE IF k = 1 THEN <<[n |-> Arg, d |-> 0, v |-> FALSE]>>
                        ELSE [i \in 1..k |-> [n |-> Arg \o Num(i), d |-> 0, v |-> FALSE]],
             auxn |-> <<>>, auxo |-> <<>>]
Ok(e) ==
  CASE e.op = "sig" -> LET q == Parse(e.text, [i \in 1..e.ndef |-> 100 + i])
                       IN e.ok = q.ok /\ (q.ok => Rest(e, q.g))
    [] e.op = "sigv" -> LET g == [params |-> e.params, auxn |-> e.auxn, auxo |-> e.auxo]
                        IN e.ok = Valid(g) /\ (e.ok => Rest(e, g))
    [] e.op = "sign" -> e.ok /\ Rest(e, ArgsN(e.n))
    [] OTHER -> FALSE
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
