-------------------------------- MODULE Num ---------------------------------
(* Machine numbers as little-endian sequences of bytes: two's complement       *)
(* integers, and IEEE-754 binary floats with their order, classes and          *)
(* roundings to an integer.                                                    *)
EXTENDS Integers, Sequences

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddFrom(a, b, i + 1, s \div 256)
Add(a, b) == AddFrom(a, b, 1, 0)
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Neg(a) == AddFrom(Not(a), Zeros(Len(a)), 1, 1)
Sub(a, b) == AddFrom(a, Not(b), 1, 1)
RECURSIVE Coef(_, _, _, _)
Coef(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Coef(a, b, k, i + 1)
RECURSIVE Carry(_, _, _, _)
Carry(a, b, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == Coef(a, b, k, 1) + c IN <<s % 256>> \o Carry(a, b, k + 1, s \div 256)
Mul(a, b) == Carry(a, b, 1, 0)                    \* modulo 256^Len(a)

IsNeg(a) == a[Len(a)] >= 128
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Wide(a, signed) == a \o [i \in 1..Len(a) |-> IF signed /\ IsNeg(a) THEN 255 ELSE 0]
MinInt(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
Ones(n) == [i \in 1..n |-> 255]
RECURSIVE UCmp(_, _, _)
UCmp(a, b, i) ==                                   \* -1, 0, 1 from byte i down
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE UCmp(a, b, i - 1)
ICmp(a, b, signed) ==
  IF signed /\ IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1)
  ELSE UCmp(a, b, Len(a))

(* a = q*b + m over the unbounded integers, m on the side of b and below it.   *)
FloorDivMod(a, b, q, m, signed) ==
  IF signed /\ a = MinInt(Len(a)) /\ b = Ones(Len(b))
  THEN q = a /\ IsZero(m)                          \* -MinInt wraps to itself
  ELSE LET W(x) == Wide(x, signed)
           r == Sub(W(a), Mul(W(q), W(b)))
       IN /\ r = W(m)
          /\ IF signed /\ IsNeg(b)
             THEN ICmp(m, b, TRUE) = 1 /\ (IsNeg(m) \/ IsZero(m))
             ELSE ICmp(m, b, signed) = -1 /\ ~(signed /\ IsNeg(m))

(* ------------------------------- floats ----------------------------------- *)
(* mbits: explicit mantissa bits (23 / 52); bits are numbered from 0.          *)
Pow2(k) == 2 ^ k
BitOf(x, i) == (x[(i \div 8) + 1] \div Pow2(i % 8)) % 2
ToBits(x) == [i \in 0..(8 * Len(x) - 1) |-> BitOf(x, i)]
MBits(x) == IF Len(x) = 4 THEN 23 ELSE 52
Bias(x) == IF Len(x) = 4 THEN 127 ELSE 1023
FNeg(x) == x[Len(x)] >= 128                        \* sign bit
Mag(x) == [x EXCEPT ![Len(x)] = @ % 128]
Exp(x) == IF Len(x) = 4 THEN (x[4] % 128) * 2 + x[3] \div 128
          ELSE (x[8] % 128) * 16 + x[7] \div 16
MantZero(x) == IF Len(x) = 4 THEN x[1] = 0 /\ x[2] = 0 /\ x[3] % 128 = 0
               ELSE (\A i \in 1..6 : x[i] = 0) /\ x[7] % 16 = 0
MaxExp(x) == 2 * Bias(x) + 1
IsNan(x) == Exp(x) = MaxExp(x) /\ ~MantZero(x)
IsInf(x) == Exp(x) = MaxExp(x) /\ MantZero(x)
IsFin(x) == Exp(x) # MaxExp(x)
FZero(x) == IsZero(Mag(x))
FCmp(a, b) ==                                      \* neither is NaN
  IF FZero(a) /\ FZero(b) THEN 0
  ELSE IF FNeg(a) # FNeg(b) THEN (IF FNeg(a) THEN -1 ELSE 1)
  ELSE LET c == UCmp(Mag(a), Mag(b), Len(a)) IN IF FNeg(a) THEN -c ELSE c
MagCmp(a, b) == UCmp(Mag(a), Mag(b), Len(a))

WithSign(x, s) == [x EXCEPT ![Len(x)] = (@ % 128) + IF s THEN 128 ELSE 0]
Same(x, y) == x = y \/ (IsNan(x) /\ IsNan(y))
SameValue(x, y) == Same(x, y) \/ (FZero(x) /\ FZero(y))
FOne(n) == IF n = 4 THEN <<0, 0, 128, 63>> ELSE <<0, 0, 0, 0, 0, 0, 240, 63>>
FInf(n) == IF n = 4 THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>

(* Number of mantissa bits below the unit position (0: already integral).      *)
FracBits(x) ==
  LET k == MBits(x) - (Exp(x) - Bias(x)) IN IF k < 0 THEN 0 ELSE k
Small(x) == Exp(x) < Bias(x)                       \* |x| < 1
AllBelow(x, k) == \A i \in 0..(k - 1) : BitOf(x, i) = 0
ClearBelow(x, k) ==
  [j \in 1..Len(x) |->
     IF 8 * j <= k THEN 0
     ELSE IF 8 * (j - 1) >= k THEN x[j]
     ELSE x[j] - (x[j] % Pow2(k - 8 * (j - 1)))]
UnitAt(n, k) == [j \in 1..n |-> IF k \div 8 = j - 1 THEN Pow2(k % 8) ELSE 0]
Integral(x) == ~IsFin(x) \/ FZero(x) \/ (~Small(x) /\ AllBelow(x, FracBits(x)))
Trunc(x) ==
  IF ~IsFin(x) THEN x
  ELSE IF Small(x) THEN WithSign(Zeros(Len(x)), FNeg(x))
  ELSE ClearBelow(x, FracBits(x))
AwayFromZero(x) ==                                 \* next integer, x not integral
  IF Small(x) THEN WithSign(FOne(Len(x)), FNeg(x))
  ELSE Add(ClearBelow(x, FracBits(x)), UnitAt(Len(x), FracBits(x)))
HalfOrMore(x) ==
  IF Small(x) THEN Exp(x) = Bias(x) - 1 ELSE BitOf(x, FracBits(x) - 1) = 1
Floor(x) == IF Integral(x) THEN x ELSE IF FNeg(x) THEN AwayFromZero(x) ELSE Trunc(x)
Ceil(x) == IF Integral(x) THEN x ELSE IF FNeg(x) THEN Trunc(x) ELSE AwayFromZero(x)
Round(x) == IF Integral(x) THEN x ELSE IF HalfOrMore(x) THEN AwayFromZero(x) ELSE Trunc(x)
=============================================================================
