-------------------------------- MODULE Logic --------------------------------
(* Three-valued logic and presence operations on single values: a value is a    *)
(* number (0 false, 1 true) or M, missing.  A mask is 0 (present) or M.         *)
EXTENDS Integers, Sequences
M == -1
T == 1
F == 0
And(a, b) == IF a = F \/ b = F THEN F ELSE IF a = T /\ b = T THEN T ELSE M
Or(a, b) == IF a = T \/ b = T THEN T ELSE IF a = F /\ b = F THEN F ELSE M
Not(a) == IF a = M THEN M ELSE 1 - a
If(c, t, f, m) == IF c = M THEN m ELSE IF c = T THEN t ELSE f
Yes == 0
Has(a) == IF a = M THEN M ELSE Yes
PNot(a) == IF a = M THEN Yes ELSE M
POr(a, b) == IF a = M THEN b ELSE a
PAnd(a, c) == IF c = M THEN M ELSE a
Where(c, a, b) == IF c = M THEN b ELSE a
AndOr(a, c, b) == POr(PAnd(a, c), b)
Cmp(a, b, r) == IF a = M \/ b = M THEN M ELSE IF r THEN Yes ELSE M
Eq(a, b) == Cmp(a, b, a = b)
Ne(a, b) == Cmp(a, b, a # b)
Lt(a, b) == Cmp(a, b, a < b)
Le(a, b) == Cmp(a, b, a <= b)
Value(f, x) ==
  CASE f = "and" -> And(x[1], x[2]) [] f = "or" -> Or(x[1], x[2]) [] f = "not" -> Not(x[1])
    [] f = "if" -> If(x[1], x[2], x[3], x[4]) [] f = "has" -> Has(x[1]) [] f = "pnot" -> PNot(x[1])
    [] f = "por" -> POr(x[1], x[2]) [] f = "pand" -> PAnd(x[1], x[2]) [] f = "where" -> Where(x[1], x[2], x[3])
    [] f = "andor" -> AndOr(x[1], x[2], x[3]) [] f = "eq" -> Eq(x[1], x[2]) [] f = "ne" -> Ne(x[1], x[2])
    [] f = "lt" -> Lt(x[1], x[2]) [] f = "le" -> Le(x[1], x[2])
Rowwise(f, args) == [k \in 1..Len(args[1]) |-> Value(f, [p \in 1..Len(args) |-> args[p][k]])]
===============================================================================
