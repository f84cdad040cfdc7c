-------------------------------- MODULE Iter --------------------------------
(* Two random-access iterators over one sequence of n elements.                *)
EXTENDS Integers, Sequences
VARIABLES p, q, n
ivars == <<p, q, n>>
Value(i) == 10 * i + 7
MoveTo(x) == x \in 0..n /\ p' = x /\ UNCHANGED <<q, n>>
Swap == p' = q /\ q' = p /\ UNCHANGED n
=============================================================================
