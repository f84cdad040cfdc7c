------------------------------ MODULE MC_Casts ------------------------------
(* The laws of the common type, for every pair and triple of types.             *)
EXTENDS Casts, TLC
VARIABLES a, b, c
vars == <<a, b, c>>
Init == a \in Types /\ b = Null /\ c = Null
Next == /\ b = Null /\ b' \in Types /\ c' \in Types /\ a' = a
Laws == b # Null =>
  \A bc \in BOOLEAN :
    LET ab == Common(a, b, bc) IN
    /\ Common(a, a, bc) = a
    /\ ab = Common(b, a, bc)
    \* associative
    /\ Common(ab, c, bc) = Common(a, Common(b, c, bc), bc)
    \* the least upper bound of the cast order
    /\ ab # Null => Leq(a, ab, bc) /\ Leq(b, ab, bc)
    /\ (Leq(a, c, bc) /\ Leq(b, c, bc)) => ab # Null /\ Leq(ab, c, bc)
    /\ Can(a, b, bc) = Leq(a, b, bc)
    \* casts compose and are antisymmetric
    /\ Can(a, b, bc) /\ Can(b, c, bc) => Can(a, c, bc)
    /\ Can(a, b, bc) /\ Can(b, a, bc) => a = b
    /\ Can(a, b, FALSE) => Can(a, b, TRUE)
    \* broadcasting keeps the scalar
    /\ (Broadcast(<<a, b>>, c) # Null => Broadcast(<<a, b>>, c).s = c.s /\ Broadcast(<<b, a>>, c) = Broadcast(<<a, b>>, c))
=============================================================================
