------------------------------ MODULE TraceBase ------------------------------
(* Stateless trace validation: every recorded event is checked on its own.   *)
(* The trace is cut into chunks so that TLC's workers share the lines.        *)
EXTENDS Integers, Sequences, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceLen == Len(Trace)
Chunk == IF TraceLen < 64 THEN TraceLen ELSE (TraceLen + 31) \div 32

VARIABLE l

TraceInit == l \in {i \in 1..TraceLen : (i - 1) % Chunk = 0}
TraceNext == l < TraceLen /\ l % Chunk # 0 /\ l' = l + 1

Has(e, f) == f \in DOMAIN e
Crashed(e) == Has(e, "crash")
==============================================================================
