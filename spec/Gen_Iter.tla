------------------------------ MODULE Gen_Iter ------------------------------
EXTENDS Iter, TLC, Json
VARIABLE hist
Depth == 4
A(op, k) == hist' = Append(hist, [op |-> op, n |-> k])
Nx == /\ Len(hist) < Depth
      /\ \/ \E d \in -2..2 : MoveTo(p + d) /\ (A("add", d) \/ A("sub", -d) \/ A("plus", d) \/ A("rplus", d) \/ A("minus", -d))
         \/ MoveTo(p + 1) /\ (A("inc", 1) \/ A("postinc", 1))
         \/ MoveTo(p - 1) /\ (A("dec", 1) \/ A("postdec", 1))
         \/ Swap /\ A("swap", 0)
GSpec == p = 0 /\ n = 2 /\ q = 2 /\ hist = <<>> /\ [][Nx]_<<ivars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
