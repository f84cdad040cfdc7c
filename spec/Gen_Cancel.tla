----------------------------- MODULE Gen_Cancel -----------------------------
(* All histories of Depth operations over two contexts, two threads, two        *)
(* handles; the laws on every state.                                            *)
EXTENDS Cancel, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
Add(r) == hist' = Append(hist, r)
GInit == CInit /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ IF Len(st) = 0 THEN Make(1) /\ Add([op |-> "make", c |-> 1])
     ELSE \/ Len(st) < 2 /\ Make(Len(st) + 1) /\ Add([op |-> "make", c |-> Len(st) + 1])
          \/ \E c \in 1..Len(st) :
               \/ Drop(c) /\ Add([op |-> "drop", c |-> c])
               \/ Cancel(c, 10 + Len(hist)) /\ Add([op |-> "cancel", c |-> c, r |-> 10 + Len(hist)])
               \/ \E h \in 1..2 : \E a \in {<<"no", 0>>, <<"cascade", 1>>, <<"drop", 1>>, <<"sub", 100 + Len(hist)>>} :
                    /\ Sub(c, h, Len(hist) + 1, a[1], a[2])
                    /\ h = 1 => a[1] = "no"
                    /\ Add([op |-> "sub", c |-> c, h |-> h, id |-> Len(hist) + 1, act |-> a[1], arg |-> a[2]])
               \/ c \in own /\ Push(1, c) /\ Add([op |-> "push", t |-> 1, c |-> c])
          \/ \E h \in 1..3 : hnd[h] # 0 /\ (\/ Unsub(h) /\ Add([op |-> "unsub", h |-> h])
                                            \/ Detach(h) /\ Add([op |-> "detach", h |-> h]))
          \/ hnd[2] # 0 /\ Move(3, 2) /\ Add([op |-> "move", h |-> 3, g |-> 2])
          \/ Push(1, 0) /\ Add([op |-> "push", t |-> 1, c |-> 0])
          \/ Pop(1) /\ Add([op |-> "pop", t |-> 1])
GSpec == GInit /\ [][GNext]_<<cvars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
