----------------------------- MODULE Container ------------------------------
(* A growable container of values; 0 is the default element.                   *)
EXTENDS Integers, Sequences
VARIABLE c
Resized(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Resize(n) == c' = Resized(c, n)
Set(i, v) == i \in 1..Len(c) /\ c' = [c EXCEPT ![i] = v]
AddElem(v) == c' = Append(c, v)
=============================================================================
