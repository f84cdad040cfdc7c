------------------------------ MODULE Trace_Math ------------------------------
(* Elementary functions as abstract real functions: order, range, symmetry,      *)
(* special points, and functional equations in fixed point.                      *)
EXTENDS Num, TraceBase

N(x) == Len(x)
Zero(x) == Zeros(Len(x))
PosInf(x) == FInf(Len(x))
NegInf(x) == WithSign(FInf(Len(x)), TRUE)
FltOne(x) == FOne(Len(x))
MinusOne(x) == WithSign(FOne(Len(x)), TRUE)
HalfOf(x) == IF Len(x) = 4 THEN <<0, 0, 0, 63>> ELSE <<0, 0, 0, 0, 0, 0, 224, 63>>
(* 88 / 709, the largest integers whose exp is finite; -87 / -708.               *)
ExpMax(x) == IF Len(x) = 4 THEN <<0, 0, 176, 66>> ELSE <<0, 0, 0, 0, 0, 40, 134, 64>>
ExpMin(x) == IF Len(x) = 4 THEN <<0, 0, 174, 194>> ELSE <<0, 0, 0, 0, 0, 32, 134, 192>>
(* pi/2 rounded up                                                               *)
HalfPi(x) == IF Len(x) = 4 THEN <<219, 15, 201, 63>>
             ELSE <<25, 45, 68, 84, 251, 33, 249, 63>>
Lt(a, b) == FCmp(a, b) = -1
Le(a, b) == FCmp(a, b) <= 0
Neg0(x) == IsFin(x) /\ FZero(x)

LogLike(x, r) ==
  /\ (FNeg(x) /\ ~FZero(x)) => IsNan(r)
  /\ FZero(x) => r = NegInf(x)
  /\ x = PosInf(x) => r = x
  /\ x = FltOne(x) => FZero(r)
  /\ (IsFin(x) /\ ~FNeg(x) /\ ~FZero(x)) =>
       /\ IsFin(r)
       /\ Lt(FltOne(x), x) => ~FNeg(r)
       /\ Lt(x, FltOne(x)) => (FNeg(r) /\ ~FZero(r))

(* r = f(x) for x that is not a NaN.                                             *)
ClassOk(f, x, r) ==
  CASE f \in {"log", "log2", "log10"} -> LogLike(x, r)
    [] f = "log1p" ->
         /\ Lt(x, MinusOne(x)) => IsNan(r)
         /\ x = MinusOne(x) => r = NegInf(x)
         /\ x = PosInf(x) => r = x
         /\ FZero(x) => r = x
         /\ Lt(MinusOne(x), x) => ~IsNan(r) /\ FNeg(r) = FNeg(x) /\ Le(r, x)
    [] f = "sqrt" ->
         /\ (FNeg(x) /\ ~FZero(x)) => IsNan(r)
         /\ FZero(x) => FZero(r)
         /\ x = PosInf(x) => r = x
         /\ (~FNeg(x)) => /\ ~IsNan(r) /\ ~FNeg(r)
                          /\ (~FZero(x)) => ~FZero(r)
                          /\ Le(FltOne(x), x) => Le(r, x) /\ Le(FltOne(x), r)
                          /\ Le(x, FltOne(x)) => Le(x, r) /\ Le(r, FltOne(x))
    [] f = "symlog1p" ->
         /\ ~IsNan(r) /\ (FZero(x) => FZero(r)) /\ (~FZero(x) => FNeg(r) = FNeg(x))
         /\ MagCmp(r, x) <= 0
         /\ IsInf(x) <=> IsInf(r)
         /\ (~FZero(x)) => ~FZero(r)
    [] f = "exp" ->
         /\ ~IsNan(r) /\ ~FNeg(r)
         /\ x = PosInf(x) => r = x
         /\ x = NegInf(x) => FZero(r)
         /\ FZero(x) => r = FltOne(x)
         /\ Lt(Zero(x), x) => Le(FltOne(x), r)
         /\ Lt(x, Zero(x)) => Le(r, FltOne(x))
         /\ Le(x, ExpMax(x)) => IsFin(r)
         /\ Le(ExpMin(x), x) => ~FZero(r)
    [] f = "expm1" ->
         /\ ~IsNan(r) /\ FNeg(r) = FNeg(x)
         /\ Le(MinusOne(x), r)
         /\ x = PosInf(x) => r = x
         /\ x = NegInf(x) => r = MinusOne(x)
         /\ (FZero(x) <=> FZero(r))
         /\ Le(x, ExpMax(x)) => IsFin(r)
    [] f \in {"sigmoid", "sigmoid_down"} ->
         LET up == f = "sigmoid"
             pos == IF up THEN ~FNeg(x) ELSE FNeg(x)
         IN /\ ~IsNan(r) /\ Le(Zero(x), r) /\ Le(r, FltOne(x))
            /\ FZero(x) => r = HalfOf(x)
            /\ pos => Le(HalfOf(x), r)
            /\ (~pos) => Le(r, HalfOf(x))
            /\ (IsInf(x) /\ pos) => r = FltOne(x)
            /\ (IsInf(x) /\ ~pos) => FZero(r)
    [] f = "logit" ->
         /\ (Lt(x, Zero(x)) \/ Lt(FltOne(x), x)) => IsNan(r)
         /\ FZero(x) => r = NegInf(x)
         /\ x = FltOne(x) => r = PosInf(x)
         /\ (Lt(Zero(x), x) /\ Lt(x, FltOne(x))) =>
              /\ IsFin(r)
              /\ Lt(x, HalfOf(x)) => Le(r, Zero(x))
              /\ Lt(HalfOf(x), x) => Le(Zero(x), r)
    [] f = "log_sigmoid" ->
         /\ ~IsNan(r) /\ Le(r, Zero(x)) /\ Le(r, x)
         /\ (x = NegInf(x)) <=> (r = NegInf(x))
         /\ x = PosInf(x) => FZero(r)
    [] f = "sin" ->
         IF IsInf(x) THEN IsNan(r)
         ELSE ~IsNan(r) /\ MagCmp(r, FltOne(x)) <= 0 /\ MagCmp(r, x) <= 0
              /\ (FZero(x) => FZero(r))
    [] f = "cos" ->
         IF IsInf(x) THEN IsNan(r)
         ELSE ~IsNan(r) /\ MagCmp(r, FltOne(x)) <= 0 /\ (FZero(x) => r = FltOne(x))
    [] f = "sinh" ->
         ~IsNan(r) /\ FNeg(r) = FNeg(x) /\ MagCmp(r, x) >= 0
         /\ (FZero(x) <=> FZero(r)) /\ (IsInf(x) => IsInf(r))
         /\ (Le(x, ExpMax(x)) /\ Le(WithSign(ExpMax(x), TRUE), x)) => IsFin(r)
    [] f = "atan" ->
         ~IsNan(r) /\ FNeg(r) = FNeg(x) /\ MagCmp(r, x) <= 0
         /\ MagCmp(r, HalfPi(x)) <= 0 /\ (FZero(x) <=> FZero(r))

Increasing == {"log", "log2", "log10", "log1p", "sqrt", "symlog1p", "exp", "expm1",
               "sigmoid", "logit", "log_sigmoid", "sinh", "atan"}
Decreasing == {"sigmoid_down"}
Odd == {"symlog1p", "sin", "sinh", "atan"}

PointOk(e) ==
  LET x == e.x
      y == e.y
      one(v, r) == IF IsNan(v) THEN IsNan(r) ELSE ClassOk(e.f, v, r)
  IN /\ one(x, e.fx) /\ one(y, e.fy)
     /\ ~IsNan(x) => one(WithSign(x, ~FNeg(x)), e.fnx)
     /\ (e.f \in Odd /\ ~IsNan(x) /\ ~IsNan(e.fx) /\ ~FZero(x)) =>
          e.fnx = WithSign(e.fx, ~FNeg(e.fx))
     /\ (e.f = "cos" /\ ~IsNan(e.fx)) => e.fnx = e.fx
     /\ (~IsNan(x) /\ ~IsNan(y) /\ ~IsNan(e.fx) /\ ~IsNan(e.fy)) =>
          /\ (e.f \in Increasing /\ Lt(x, y)) => Le(e.fx, e.fy)
          /\ (e.f \in Increasing /\ Lt(y, x)) => Le(e.fy, e.fx)
          /\ (e.f \in Decreasing /\ Lt(x, y)) => Le(e.fy, e.fx)
          /\ (e.f \in Decreasing /\ Lt(y, x)) => Le(e.fx, e.fy)

AbsI(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == AbsI(a - b) <= tol
Bad == -1999999999

RelOk(e) ==                               \* values in 1/10000
  /\ Near(e.log, (e.log2 * 6931) \div 10000, 14)
  /\ Near(e.log, (e.log10 * 23026) \div 10000, 6)
  /\ Near(e.logsq, 2 * e.log, 3)
  /\ Near(e.loginv, -e.log, 3)
  /\ Near(e.log1p, e.log, 2 + (2000 \div e.n))
  /\ Near(AbsI(e.symlog), e.logabs, 3)
  /\ (e.n < 1000) => e.symlog <= 0
  /\ (e.n >= 1000) => e.symlog = e.log1p
  /\ Near(e.explog, 10 * e.n, 2 + (e.n \div 1000))
  /\ Near(e.expm1log, 10 * e.n - 10000, 2 + (e.n \div 1000))
  /\ Near(e.sqrtsq, 10 * e.n, 2 + (e.n \div 1000))
  /\ Near(e.powhalf, e.sqrt, 2)
  /\ Near(e.powtwo, e.square, 2 + (e.n \div 1000))
  /\ Near(e.powinv, 10000, 2)
  /\ Near(2 * e.logpow, 3 * e.log, 5)
  /\ Near(e.logit, e.logodds, 4)

HalfPiFix == 15708
(* The logistic function bounds derivative: 0.0001 in sg is up to this in logit. *)
LogitTol(sg) == IF sg < 200 \/ sg > 9800 THEN 100000000 ELSE 40
SymOk(e) ==
  /\ Near(e.sg + e.sgr, 10000, 2)
  /\ Near(e.sg + e.sgd, 10000, 2)
  /\ (e.sg >= 200 /\ e.sg <= 9800) => Near(e.lsg, e.lin, 6)
  /\ (e.lin > 0) => e.sg >= 5000
  /\ (e.lin < 0) => e.sg <= 5000
  /\ (e.lin > 120000) => e.sg >= 9999
  /\ (e.lin < -120000) => e.sg <= 1
  /\ Near(e.ls - e.lsn, e.x, 3)
  /\ Near(e.els, e.s0, 2)
  /\ e.ls <= 0 /\ e.lsn <= 0
  /\ (e.x >= 0) => e.ls >= -6932
  /\ Near(e.sin * e.sin + e.cos * e.cos, 100000000, 30000)
  /\ Near(e.sin2 * 10000, 2 * e.sin * e.cos, 40000)
  /\ Near(e.cos2 * 10000, e.cos * e.cos - e.sin * e.sin, 40000)
  /\ (e.x # 0) => Near(e.atan + e.ataninv, IF e.x > 0 THEN HalfPiFix ELSE -HalfPiFix, 3)
  /\ Near(e.tanat, e.x, 4 + AbsI(e.x \div 5000))
  /\ Near(2 * e.sinh, e.exp - e.expn, 4 + AbsI(e.sinh \div 2000))
  /\ Near(e.expm1, e.exp - 1000, 3 + (e.exp \div 2000))
  \* anchors
  /\ (e.n = 0) => e.exp = 1000 /\ e.sin = 0 /\ e.cos = 10000 /\ e.ls = -6931
  /\ (e.n = 8000) => e.exp = 2718 /\ e.sinh = 1175
  /\ (e.n = 1000) => e.sin = 8415 /\ e.cos = 5403 /\ e.atan = 7854 /\ e.s0 = 7311

TinyOk(e) ==
  LET tol == IF e.k >= 5 THEN 1 ELSE 60
  IN /\ \A i \in 1..6 : Near(e.pos[i], 10000, tol) /\ Near(e.neg[i], 10000, tol)
     /\ Near(e.logit, 0, IF e.k >= 5 THEN 2 ELSE 120)

LargeOk(e) ==
  /\ Near(e.ls, 10000, IF e.k < 8 THEN 40 ELSE 5)
  /\ Near(e.lsn, 10000, IF e.k < 8 THEN 40 ELSE 5)
  /\ Near(e.sinh, 10000, 3) /\ Near(e.sinhn, -10000, 3)
  /\ Near(e.expm1, 10000, IF e.k < 8 THEN 70 ELSE 5)
  /\ Near(e.sg, 10000, IF e.k < 8 THEN 70 ELSE 5)
  /\ Near(e.expinv, 10000, 3)
  /\ Near(e.logexp, 10000, 2)

ExactOk(e) ==
  /\ e.log2 = 1000 * e.k
  /\ Near(e.log10, 1000 * (IF e.k >= 0 THEN e.k \div 4 ELSE -((-e.k) \div 4)), 1)
  /\ e.sqrt = 1000 * AbsI(e.k)
  /\ Near(e.logit, (e.j * 693147) \div 1000, 2 + (IF e.j < 10 THEN 2000 \div (2 ^ e.j) ELSE 0))
  /\ e.pow2k = e.ldexp
  /\ e.pows = [i \in 1..77 |-> LET a == ((i - 1) \div 7) - 5 IN IF i % 7 = 1 THEN 1 ELSE a ^ ((i - 1) % 7)]

PowOk(e) ==
  LET a == e.x
      b == e.y
      r == e.r
  IN /\ (FZero(b) \/ a = FltOne(a)) => r = FltOne(a)
     /\ ((IsNan(a) \/ IsNan(b)) /\ ~FZero(b) /\ a # FltOne(a)) => IsNan(r)
     /\ (~IsNan(a) /\ ~IsNan(b)) =>
          /\ (IsFin(a) /\ FNeg(a) /\ ~FZero(a) /\ IsFin(b) /\ ~Integral(b)) => IsNan(r)
          /\ (~FNeg(a)) => ~IsNan(r) /\ ~FNeg(r)
          /\ (FZero(a) /\ ~FNeg(b) /\ ~FZero(b)) => FZero(r)
          /\ (FZero(a) /\ FNeg(b) /\ ~FZero(b)) => IsInf(r)
          /\ (b = FltOne(b)) => r = a
          /\ (IsInf(b) /\ Mag(a) = FltOne(a)) => r = FltOne(a)
          /\ (IsInf(b) /\ Mag(a) # FltOne(a)) =>
               IF (MagCmp(a, FltOne(a)) = 1) = ~FNeg(b) THEN r = PosInf(a) ELSE FZero(r)
          /\ (~FNeg(a) /\ IsFin(b) /\ ~FNeg(b) /\ Le(FltOne(a), a)) => Le(FltOne(a), r)
          /\ (~FNeg(a) /\ IsFin(b) /\ ~FNeg(b) /\ Le(a, FltOne(a))) => Le(r, FltOne(a))

Sig3Ok(e) ==                         \* finite value x, half y and slope z
  /\ (IsNan(e.x) \/ IsNan(e.y) \/ IsNan(e.z)) => IsNan(e.r)
  /\ (IsFin(e.x) /\ IsFin(e.y) /\ IsFin(e.z)) =>
       /\ (e.x = e.y \/ FZero(e.z)) => (e.r = HalfOf(e.x) \/ IsNan(e.r))
       /\ (e.x = e.y) => e.r = HalfOf(e.x)
       /\ ~IsNan(e.r) => /\ Le(Zero(e.x), e.r) /\ Le(e.r, FltOne(e.x))
                         /\ (FCmp(e.x, e.y) = 1 /\ Lt(Zero(e.x), e.z)) => Le(HalfOf(e.x), e.r)
                         /\ (FCmp(e.x, e.y) = -1 /\ Lt(Zero(e.x), e.z)) => Le(e.r, HalfOf(e.x))
                         /\ (FCmp(e.x, e.y) = 1 /\ Lt(e.z, Zero(e.x))) => Le(e.r, HalfOf(e.x))
                         /\ (FCmp(e.x, e.y) = -1 /\ Lt(e.z, Zero(e.x))) => Le(HalfOf(e.x), e.r)

Ok(e) ==
  CASE e.op = "point" -> PointOk(e)
    [] e.op = "rel" -> RelOk(e)
    [] e.op = "sym" -> SymOk(e)
    [] e.op = "tiny" -> TinyOk(e)
    [] e.op = "large" -> LargeOk(e)
    [] e.op = "exact" -> ExactOk(e)
    [] e.op = "pow" -> PowOk(e)
    [] e.op = "sig3" -> Sig3Ok(e)

Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
