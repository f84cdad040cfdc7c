-------------------------- MODULE Trace_SeqSearch --------------------------
EXTENDS TraceBase, FiniteSets
ToSet(q) == {q[i] : i \in 1..Len(q)}
LowerBound(s, k) == Cardinality({i \in 1..Len(s) : s[i] < k})
LowerBoundDesc(s, k) == Cardinality({i \in 1..Len(s) : s[i] > k})
Ok(e) ==
  CASE e.op = "lb" -> /\ e.vec = LowerBound(e.s, e.k)
                      /\ e.lst = LowerBound(e.s, e.k)
                      /\ e.desc = LowerBoundDesc([i \in 1..Len(e.s) |-> e.s[Len(e.s) + 1 - i]], e.k)
                      /\ e.inside
    (* every key once, ascending, for ordered / hashed / string-keyed maps     *)
    [] e.op = "keys" -> \A r \in {e.map, e.hash, e.str, e.mid} :
                          /\ ToSet(r) = ToSet(e.s)
                          /\ \A i \in 1..(Len(r) - 1) : r[i] < r[i + 1]
    [] OTHER -> FALSE
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
