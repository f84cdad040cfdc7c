-------------------------------- MODULE Arrays --------------------------------
(* Arrays with missing values.  An array is a sequence of values, a value is a  *)
(* number or M (missing).  How an array stores its contents - a constant, a     *)
(* bitmap, a list of ids, shifted or shared buffers - is not part of it: every  *)
(* operation here is defined on the contents alone.                             *)
(* arr[1..4] are general arrays, arr[5..6] dense ones.                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES arr, kind
avars == <<arr, kind>>
M == -1
Norm(v) == IF v = M THEN M ELSE IF kind = "unit" THEN 0 ELSE v
N(s) == Len(s)
Row(s, f(_)) == [k \in 1..Len(s) |-> f(k)]
Present(s) == {k \in 1..Len(s) : s[k] # M}
Set(i, s) == arr' = [arr EXCEPT ![i] = s] /\ UNCHANGED kind
Same == UNCHANGED avars
AInit == arr = [i \in 1..6 |-> <<>>] /\ kind = "i32"
Begin(k) == kind' = k /\ arr' = [i \in 1..6 |-> <<>>]

In(s) == {s[k] : k \in 1..Len(s)}
\* --- building
ConstOf(n, v) == [k \in 1..n |-> v]
At(ids, vals, k) == LET P == {p \in 1..Len(ids) : ids[p] = k - 1}
                    IN IF P = {} THEN M ELSE vals[CHOOSE p \in P : TRUE]
FromIds(n, ids, vals) == [k \in 1..n |-> At(ids, vals, k)]
\* writing a missing value has no effect
BStep(s, st) == [k \in 1..Len(s) |-> IF k > st.at /\ k <= st.at + st.n /\ st.v # M THEN st.v ELSE s[k]]
RECURSIVE BFold(_, _, _)
BFold(s, steps, p) == IF p > Len(steps) THEN s ELSE BFold(BStep(s, steps[p]), steps, p + 1)
Built(max, steps, n) == SubSeq(BFold(ConstOf(max, M), steps, 1), 1, n)

\* --- changing the representation
WithIds(s, ids, miss) == [k \in 1..Len(s) |-> IF (k - 1) \in ids THEN s[k] ELSE miss]
Sub(s, off, n) == SubSeq(s, off + 1, off + n)
Mask(s) == [k \in 1..Len(s) |-> IF s[k] = M THEN M ELSE 0]

\* --- observing
Ordered(S) == [p \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = p - 1]
PresentIds(s) == LET o == Ordered(Present(s)) IN [p \in 1..Len(o) |-> o[p] - 1]
Firsts(s, n) == LET o == PresentIds(s) IN SubSeq(o, 1, IF n < 0 THEN 0 ELSE IF n < Len(o) THEN n ELSE Len(o))
Lasts(s, n) == LET o == PresentIds(s)  m == IF n < 0 THEN 0 ELSE IF n < Len(o) THEN n ELSE Len(o)
               IN [p \in 1..m |-> o[Len(o) + 1 - p]]
Subset(s, ids) == [p \in 1..Len(ids) |-> <<ids[p], s[ids[p] + 1]>>]

\* --- pointwise operations: argument optionality and the scalar function
Arity == [inc |-> 1, inc0 |-> 1, even |-> 1, not |-> 1, add |-> 2, add0 |-> 2, or |-> 2, orreq |-> 2,
          drop |-> 2, div |-> 2, divopt |-> 2, add3 |-> 3]
Req(f) == CASE f = "not" -> {} [] f = "or" -> {} [] f = "orreq" -> {2}
            [] f \in {"drop", "divopt"} -> {1} [] f \in {"add", "add0", "div"} -> {1, 2}
            [] f = "add3" -> {1, 2, 3} [] OTHER -> {1}
Err == -2
Scalar(f, x) ==
  CASE f \in {"inc", "inc0"} -> x[1] + 1
    [] f = "even" -> IF x[1] % 2 = 0 THEN x[1] ELSE M
    [] f = "not" -> IF x[1] = M THEN 0 ELSE M
    [] f \in {"add", "add0"} -> x[1] + x[2]
    [] f = "add3" -> x[1] + x[2] + x[3]
    [] f = "or" -> IF x[1] # M THEN x[1] ELSE x[2]
    [] f = "orreq" -> IF x[1] # M THEN x[1] ELSE x[2]
    [] f = "drop" -> IF x[2] = M THEN x[1] ELSE M
    [] f = "div" -> IF x[2] = 0 THEN Err ELSE x[1] \div x[2]
    [] f = "divopt" -> IF x[2] = M THEN M ELSE IF x[2] = 0 THEN Err ELSE x[1] \div x[2]
\* missing if a required argument is missing
Lift(f, x) == IF \E p \in Req(f) : x[p] = M THEN M ELSE Scalar(f, x)
Column(f, as, k) == [p \in 1..Arity[f] |-> as[p][k]]
Pointwise(f, as) == [k \in 1..Len(as[1]) |-> LET r == Lift(f, Column(f, as, k)) IN IF r = Err THEN r ELSE Norm(r)]
SameSizes(f, as) == \A p \in 1..Arity[f] : Len(as[p]) = Len(as[1])
PwOk(f, as) == SameSizes(f, as) /\ Err \notin In(Pointwise(f, as))
\* rows from..to-1 of (a required, b optional): <<id, a, b>>, a missing row being <<id, -3, -3>>
Rows(s, t, from, to) == [p \in 1..(to - from) |->
   LET k == from + p IN IF s[k] = M THEN <<k - 1, -3, -3>> ELSE <<k - 1, s[k], t[k]>>]
ValidRows(s, t) == SelectSeq(Rows(s, t, 0, Len(s)), LAMBDA r : r[2] # -3)
===============================================================================
