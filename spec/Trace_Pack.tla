------------------------------ MODULE Trace_Pack ------------------------------
EXTENDS Pack, TraceBase
Ok(e) == /\ e.got = Observed(e.flat, 7)
         /\ e.again = e.got                \* the tuple may be used repeatedly
         /\ e.copy = e.got
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
