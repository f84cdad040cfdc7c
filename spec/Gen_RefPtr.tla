----------------------------- MODULE Gen_RefPtr -----------------------------
EXTENDS RefPtr, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
Ops1 == {"make", "reset"}
Ops2 == {"link", "copy", "move", "swap", "newref", "next"}
Do(op, i, j) ==
  CASE op = "make" -> Make(i) [] op = "reset" -> Reset(i) [] op = "link" -> Link(i, j)
    [] op = "copy" -> Copy(i, j) [] op = "move" -> Move(i, j) [] op = "swap" -> Swap(i, j)
    [] op = "newref" -> NewRef(i, j) [] op = "next" -> NextOf(i, j)
GInit == PInit /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \E i \in {1, 2} :
              \/ \E op \in Ops1 : Do(op, i, i) /\ hist' = Append(hist, [op |-> op, h |-> i, g |-> i])
              \/ \E op \in Ops2, j \in {1, 2} :
                    Do(op, i, j) /\ hist' = Append(hist, [op |-> op, h |-> i, g |-> j])
GSpec == GInit /\ [][GNext]_<<pvars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
