---------------------------- MODULE Gen_TaskPool ----------------------------
EXTENDS TaskPool, TLC, Json, Sequences
VARIABLE hist
GNext == \E w \in AllW : (Draw(w) \/ Finish(w)) /\ hist' = Append(hist, w)
GSpec == Init /\ hist = <<>> /\ [][GNext]_<<vars, hist>>
Emit == (\A w \in Workers : wpc[w] = "exit") => PrintT(ToJson([n |-> n, par |-> par, sched |-> hist]))
=============================================================================
