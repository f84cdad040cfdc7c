---------------------------- MODULE Gen_Container ----------------------------
EXTENDS Container, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
GInit == c = <<>> /\ hist = <<>>
R(e) == hist' = Append(hist, e)
GNext ==
  /\ Len(hist) < Depth
  /\ LET v == Len(hist) + 1 IN
     \/ \E n \in 0..4 : Resize(n) /\ R([op |-> "resize", n |-> n])
     \/ \E i \in {1, Len(c)} : Set(i, v) /\ R([op |-> "set", i |-> i, v |-> v])
     \/ AddElem(v) /\ R([op |-> "add", v |-> v])
GSpec == GInit /\ [][GNext]_<<c, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
(* shrinking then growing never brings old values back                         *)
Fresh == \A n \in 0..4, m \in 0..4 :
           LET s == Resized(Resized(c, n), m) IN
             Len(s) = m /\ \A i \in 1..m : s[i] = (IF i <= n /\ i <= Len(c) THEN c[i] ELSE 0)
=============================================================================
