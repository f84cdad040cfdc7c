-------------------------------- MODULE Bits --------------------------------
(* Bit-vector operations as operations on sets of positions.  A memory area of *)
(* whole words is the set of positions of its one bits.                        *)
EXTENDS Integers, FiniteSets, Sequences

Range(a, b) == {i \in a..(b - 1) : TRUE}        \* [a, b)
Shift(S, k) == {i + k : i \in S}

SetBitOp(m, i) == m \cup {i}
UnsetBitOp(m, i) == m \ {i}
SetRangeOp(m, a, b) == m \cup Range(a, b)
CountRangeOp(m, a, b) == Cardinality(m \cap Range(a, b))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
FindNextOp(m, i, limit) ==
  LET S == {x \in m : i <= x /\ x < limit} IN IF S = {} THEN limit ELSE MinOf(S)
(* lhs[ls : ls+n] := f(lhs[..], rhs[rs : rs+n]) for n bits                     *)
Window(m, skip, n) == {x \in Range(0, n) : (x + skip) \in m}
AndWindow(l, ls, r, rs, n) == Window(l, ls, n) \cap Window(r, rs, n)
CopyOp(l, ls, r, rs, n) == (l \ Range(ls, ls + n)) \cup Shift(Window(r, rs, n), ls)
RoundUpOp(v, d) == CHOOSE x \in v..(v + d - 1) : x % d = 0
Words(n, w) == (n + w - 1) \div w
(* A missing bitmap (or a missing tail of it) means "all present".             *)
CountBitsOp(m, nbits, off, size) ==
  Cardinality({i \in Range(off, off + size) : i < 0 \/ i >= nbits \/ i \in m})
=============================================================================
