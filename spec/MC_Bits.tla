------------------------------ MODULE MC_Bits ------------------------------
(* Laws of the bit operations, exhaustively on memories of up to N bits.       *)
EXTENDS Bits
N == 5
VARIABLES m, r, a, c, n, last
vars == <<m, r, a, c, n, last>>
Init == /\ m \in SUBSET Range(0, N) /\ r \in SUBSET Range(0, N)
        /\ a = 0 /\ c = 0 /\ n = 0 /\ last = m
Params == a' \in 0..N /\ c' \in 0..N /\ n' \in 0..N
Pick == a = 0 /\ c = 0 /\ n = 0 /\ Params /\ a' + n' <= N /\ c' + n' <= N /\ UNCHANGED <<m, r, last>>
Next == Pick
Spec == Init /\ [][Next]_vars
InRange(x) == a <= x /\ x < a + n
CopyLaw == LET k == CopyOp(m, a, r, c, n) IN
  /\ \A x \in Range(0, N) : ~InRange(x) => (x \in k <=> x \in m)
  /\ \A x \in Range(0, N) : InRange(x) => (x \in k <=> (x - a + c) \in r)
SplitLaw == CountRangeOp(m, a, a + n) + CountRangeOp(m, a + n, N) = CountRangeOp(m, a, N)
FindLaw == LET f == FindNextOp(m, a, a + n) IN
  /\ CountRangeOp(m, a, f) = 0
  /\ (f < a + n => f \in m)
RangeLaw == CountRangeOp(SetRangeOp(m, a, a + n), a, a + n) = n
AndLaw == AndWindow(m, a, r, c, n) = AndWindow(r, c, m, a, n)
CountLaw == CountBitsOp(m, N, a, n) = CountRangeOp(m, a, a + n)
=============================================================================
