--------------------------- MODULE Gen_SeqSearch ---------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
N == 6
V == {1, 3, 5}
Seqs == UNION {{q \in [1..n -> V] : \A i \in 1..(n - 1) : q[i] <= q[i + 1]} : n \in 0..N}
Init == \/ x \in [op : {"lb"}, s : Seqs, k : 0..6]
        \/ x \in [op : {"keys"}, s : UNION {[1..n -> 1..3] : n \in 0..4}]
Next == FALSE /\ UNCHANGED x
Emit == PrintT(ToJson(x))
=============================================================================
