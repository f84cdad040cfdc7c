------------------------------- MODULE RefPtr -------------------------------
(* Histories of reference-counted handles.  An object is alive exactly while   *)
(* some handle (a variable or the "next" handle inside a live object) points   *)
(* to it; it dies exactly once.                                                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES h, nxt, dead, n   \* targets of the handles, next handles, destroyed ids, objects made

pvars == <<h, nxt, dead, n>>
Handles == 1..3

RECURSIVE Reach(_, _)
Reach(S, nx) ==
  LET T == S \cup ({nx[i] : i \in S} \ {0}) IN IF T = S THEN S ELSE Reach(T, nx)
AliveOf(hh, nx) == Reach({hh[i] : i \in Handles} \ {0}, nx)

PInit == h = [i \in Handles |-> 0] /\ nxt = <<>> /\ dead = {} /\ n = 0

Settle(hh, nx, m) ==
  /\ h' = hh /\ nxt' = nx /\ n' = m
  /\ dead' = (1..m) \ AliveOf(hh, nx)

Set(i, x) == [h EXCEPT ![i] = x]

Make(i)    == Settle(Set(i, n + 1), Append(nxt, 0), n + 1)
Own(i)     == Make(i)
Link(i, j) == Settle(Set(i, n + 1), Append(nxt, h[j]), n + 1)
Copy(i, j) == Settle(Set(i, h[j]), nxt, n)
NewRef(i, j) == Copy(i, j)
(* A moved-from handle is left either empty or with the old target.            *)
Move(i, j) == \/ Settle([h EXCEPT ![i] = h[j], ![j] = h[i]], nxt, n)
              \/ i # j /\ Settle([h EXCEPT ![i] = h[j], ![j] = 0], nxt, n)
Reset(i)   == Settle(Set(i, 0), nxt, n)
Null(i)    == Reset(i)
Swap(i, j) == Settle([h EXCEPT ![i] = h[j], ![j] = h[i]], nxt, n)
(* h = g->next; nothing happens when g is empty.                               *)
NextOf(i, j) == IF h[j] = 0 THEN Settle(h, nxt, n) ELSE Settle(Set(i, nxt[h[j]]), nxt, n)
Temp(i, j) == Settle(h, nxt, n)

NeverResurrected == [][dead \subseteq dead']_pvars
Conserved == dead \cap AliveOf(h, nxt) = {}
Accounted == dead \cup AliveOf(h, nxt) = 1..n
=============================================================================
