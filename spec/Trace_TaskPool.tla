--------------------------- MODULE Trace_TaskPool ---------------------------
(* Observable behaviour of the pool, whatever its workers do internally.       *)
EXTENDS TraceSession, FiniteSets
VARIABLES running, ended, returned
vars == <<b, l, running, ended, returned>>
TInit == SessionInit /\ running = {} /\ ended = {} /\ returned = FALSE
Start == /\ Is("start") /\ ~returned
         /\ Ev.i \in 1..Cur.n /\ Ev.i \notin running \cup ended
         /\ Cardinality(running) < Cur.par
         /\ running' = running \cup {Ev.i} /\ UNCHANGED <<ended, returned>>
Finish == /\ Is("finish") /\ Ev.i \in running
          /\ running' = running \ {Ev.i} /\ ended' = ended \cup {Ev.i}
          /\ UNCHANGED returned
Return == /\ Is("return") /\ ~returned /\ running = {} /\ ended = 1..Cur.n
          /\ returned' = TRUE /\ UNCHANGED <<running, ended>>
(* A thread of the plain interface: its function runs exactly once, and the    *)
(* join handle returns after it.                                               *)
Count == /\ Is("count") /\ Ev.count = (IF Ev.k > 1 THEN Ev.k ELSE 1) /\ Ev.def >= 1
         /\ UNCHANGED <<running, ended, returned>>
TNext == Count \/ Start \/ Finish \/ Return \/ (AtEnd /\ returned /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
