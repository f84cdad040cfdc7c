-------------------------------- MODULE Pack --------------------------------
(* A flat pack n1, a1, n2, a2, .. denotes the sequence of pairs <<n_i, a_i>>.  *)
EXTENDS Integers, Sequences, FiniteSets
Pairs(flat) == [i \in 1..(Len(flat) \div 2) |-> <<flat[2 * i - 1], flat[2 * i]>>]
(* What an observer sees: the name and the accessor's answer to input x.       *)
Answer(acc, x) == acc * 1000 + x
Observed(flat, x) ==
  [i \in 1..(Len(flat) \div 2) |-> [name |-> flat[2 * i - 1], val |-> Answer(flat[2 * i], x)]]
=============================================================================
