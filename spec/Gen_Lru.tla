------------------------------ MODULE Gen_Lru -------------------------------
(* All histories of Depth operations; the cache laws on every state.            *)
EXTENDS Lru, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
GInit == \E c \in 1..3 : LInit(c) /\ hist = <<[op |-> "begin", cap |-> c]>>
GNext ==
  /\ Len(hist) <= Depth
  /\ \/ \E k \in {10, 20, 30} :
          \/ Lookup(k) /\ hist' = Append(hist, [op |-> "get", k |-> k])
          \/ \E w \in {1, 2} :
               /\ Put(k, Len(hist), w)
               /\ hist' = Append(hist, [op |-> "put", k |-> k, v |-> Len(hist), w |-> w])
     \/ Clear /\ hist' = Append(hist, [op |-> "clear"])
GSpec == GInit /\ [][GNext]_<<lvars, hist>>
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
=============================================================================
