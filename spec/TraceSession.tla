---------------------------- MODULE TraceSession ----------------------------
(* Stateful trace validation: every line of the trace file is one recorded     *)
(* session {.., "ev": [event, ..]}.  TLC starts one behaviour per session (b)  *)
(* and consumes its events one by one (l).  A session that cannot be explained *)
(* by the specification's actions is a deadlock.                               *)
EXTENDS Integers, Sequences, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES b, l

Cur == Sessions[b]
Evs == Sessions[b].ev
AtEnd == l > Len(Evs)
Ev == Evs[l]
Has(e, f) == f \in DOMAIN e
Consume == l <= Len(Evs) /\ ~Has(Evs[l], "crash") /\ l' = l + 1 /\ b' = b
Is(name) == Consume /\ Ev.op = name
SessionInit == b \in 1..Len(Sessions) /\ l = 1
=============================================================================
