----------------------------- MODULE Trace_Logic -----------------------------
EXTENDS TraceBase, Logic
Ok(e) == /\ e.ok
         /\ e.res = Rowwise(e.f, e.args)
         /\ \A k \in 1..Len(e.lazy) : e.lazy[k] = e.res[k]
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
