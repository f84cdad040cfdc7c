------------------------------ MODULE Trace_Num -------------------------------
EXTENDS Num, TraceBase

B(x) == IF x THEN 1 ELSE 0
(* c: -1, 0, 1; ord: the pair is ordered (no NaN)                                *)
CmpOk(e, c, ord) ==
  LET eq == B(ord /\ c = 0)
      lt == B(ord /\ c = -1)
      le == B(ord /\ c <= 0)
  IN /\ e.eq = eq /\ e.meq = eq
     /\ e.ne = 1 - eq /\ e.mne = 1 - eq
     /\ e.lt = lt /\ e.mlt = lt
     /\ e.le = le /\ e.mle = le

IntOk(e, s) ==
  LET a == e.a
      b == e.b
      n == Len(a)
  IN /\ CmpOk(e, ICmp(a, b, s), TRUE)
     /\ e.add = Add(a, b)
     /\ e.add3 = Add(Add(a, b), a)
     /\ e.sub = Sub(a, b)
     /\ e.mul = Mul(a, b)
     /\ IF IsZero(b) THEN e.fdiv = "E3" /\ e.mod = "E3"
        ELSE FloorDivMod(a, b, e.fdiv, e.mod, s)
     /\ e.max = IF ICmp(a, b, s) >= 0 THEN a ELSE b
     /\ e.min = IF ICmp(a, b, s) <= 0 THEN a ELSE b
     /\ e.neg = Neg(a)
     /\ e.pos = a
     /\ e.abs = IF s /\ IsNeg(a) THEN Neg(a) ELSE a
     /\ e.sign = IF IsZero(a) THEN a ELSE IF s /\ IsNeg(a) THEN Ones(n) ELSE One(n)

Nan2(a, b) == IsNan(a) \/ IsNan(b)
(* IEEE special cases of the four operations (exact where listed).               *)
AddOk(a, b, r) ==
  /\ Nan2(a, b) => IsNan(r)
  /\ (IsInf(a) /\ IsInf(b) /\ FNeg(a) # FNeg(b)) => IsNan(r)
  /\ (IsInf(a) /\ IsFin(b)) => r = a
  /\ (IsInf(b) /\ IsFin(a)) => r = b
  /\ (IsInf(a) /\ a = b) => r = a
  /\ (IsFin(a) /\ FZero(b)) => SameValue(r, a)
  /\ (IsFin(b) /\ FZero(a)) => SameValue(r, b)
  /\ (IsFin(a) /\ IsFin(b) /\ a = WithSign(b, ~FNeg(b))) => FZero(r)
  /\ (IsFin(a) /\ IsFin(b)) => ~IsNan(r)
  /\ (IsFin(a) /\ IsFin(b) /\ FNeg(a) = FNeg(b)) =>
       /\ FNeg(r) = FNeg(a) /\ MagCmp(r, a) >= 0 /\ MagCmp(r, b) >= 0
MulOk(a, b, r) ==
  /\ Nan2(a, b) => IsNan(r)
  /\ ((IsInf(a) /\ FZero(b)) \/ (IsInf(b) /\ FZero(a))) => IsNan(r)
  /\ ~IsNan(r) => FNeg(r) = (FNeg(a) # FNeg(b))
  /\ (IsFin(a) /\ IsFin(b)) => ~IsNan(r)
  /\ (IsFin(a) /\ Mag(b) = FOne(Len(a))) => Mag(r) = Mag(a)
  /\ (IsFin(a) /\ FZero(b)) => FZero(r)
  /\ (IsInf(a) /\ ~Nan2(a, b) /\ ~FZero(b)) => IsInf(r)
DivOk(a, b, r) ==
  /\ Nan2(a, b) => IsNan(r)
  /\ (FZero(a) /\ FZero(b)) => IsNan(r)
  /\ (IsInf(a) /\ IsInf(b)) => IsNan(r)
  /\ ~IsNan(r) => FNeg(r) = (FNeg(a) # FNeg(b))
  /\ (~Nan2(a, b) /\ ~FZero(a) /\ FZero(b)) => IsInf(r)
  /\ (IsFin(a) /\ ~IsNan(b) /\ Mag(b) = FOne(Len(a))) => Mag(r) = Mag(a)
  /\ (IsFin(a) /\ Mag(a) = Mag(b) /\ ~FZero(a)) => Mag(r) = FOne(Len(a))
  /\ (IsFin(a) /\ IsInf(b)) => FZero(r)
FmodOk(a, b, r) ==
  /\ (Nan2(a, b) \/ IsInf(a) \/ FZero(b)) => IsNan(r)
  /\ (IsFin(a) /\ ~IsNan(b) /\ ~FZero(b)) =>
       /\ IsFin(r) /\ FNeg(r) = FNeg(a) /\ (MagCmp(r, b) = -1)
       /\ MagCmp(a, b) = -1 => r = a
       /\ MagCmp(a, b) = 0 => FZero(r)
FDivOk(a, b, q) ==
  IF FZero(b) THEN q = "E3"
  ELSE /\ (Nan2(a, b) \/ IsInf(a)) => IsNan(q)
       /\ IsNan(q) \/ (Integral(q) /\ IsFin(q))
       /\ (IsFin(a) /\ ~IsNan(b)) =>
            /\ FZero(a) => FZero(q)
            /\ (~FZero(a) /\ MagCmp(a, b) = -1) =>
                 IF FNeg(a) = FNeg(b) THEN FZero(q) ELSE q = WithSign(FOne(Len(a)), TRUE)
            /\ (~FZero(a) /\ MagCmp(a, b) = 0) =>
                 q = WithSign(FOne(Len(a)), FNeg(a) # FNeg(b))
            /\ (~FZero(a) /\ MagCmp(a, b) = 1) =>
                 /\ IsNan(q) => Exp(a) - Exp(b) + 2 >= Bias(a)    \* overflow only
                 /\ ~IsNan(q) => /\ FNeg(q) = (FNeg(a) # FNeg(b))
                                 /\ MagCmp(q, FOne(Len(a))) >= 0
            /\ Mag(b) = FOne(Len(a)) => q = Floor(WithSign(a, FNeg(a) # FNeg(b)))
FModOk(a, b, q, m) ==
  IF FZero(b) THEN m = "E3"
  ELSE /\ (Nan2(a, b) \/ IsInf(a)) => IsNan(m)
       /\ IsNan(m) <=> IsNan(q)                       \* both or none
       /\ (IsFin(a) /\ ~IsNan(b)) =>
            /\ ~IsNan(m) => FNeg(m) = FNeg(b)
            /\ FZero(a) => FZero(m)
            /\ (MagCmp(a, b) = -1 /\ FNeg(a) = FNeg(b)) => m = a
            /\ MagCmp(a, b) = 0 => FZero(m)
            /\ (MagCmp(a, b) = -1 /\ ~FZero(a) /\ FNeg(a) # FNeg(b)
                  /\ IsFin(b) /\ Exp(b) - Exp(a) < 100) =>
                 IsFin(m) /\ MagCmp(m, b) <= 0
            /\ (IsInf(b) /\ ~FZero(a) /\ FNeg(a) # FNeg(b)) => IsInf(m)

FloatOk(e) ==
  LET a == e.a
      b == e.b
      n == Len(a)
  IN /\ CmpOk(e, IF Nan2(a, b) THEN 9 ELSE FCmp(a, b), ~Nan2(a, b))
     /\ AddOk(a, b, e.add)
     /\ Nan2(a, b) => IsNan(e.add3)
     /\ AddOk(a, IF IsNan(b) THEN b ELSE WithSign(b, ~FNeg(b)), e.sub)
     /\ MulOk(a, b, e.mul)
     /\ DivOk(a, b, e.div)
     /\ FmodOk(a, b, e.fmod)
     /\ FDivOk(a, b, e.fdiv)
     /\ FModOk(a, b, e.fdiv, e.mod)
     /\ IF Nan2(a, b) THEN IsNan(e.max) /\ IsNan(e.min)
        ELSE /\ e.max \in {a, b} /\ FCmp(e.max, a) >= 0 /\ FCmp(e.max, b) >= 0
             /\ e.min \in {a, b} /\ FCmp(e.min, a) <= 0 /\ FCmp(e.min, b) <= 0
     /\ Same(e.neg, IF IsNan(a) THEN a ELSE WithSign(a, ~FNeg(a)))
     /\ Same(e.pos, a)
     /\ Same(e.abs, IF IsNan(a) THEN a ELSE WithSign(a, FALSE))
     /\ IF IsNan(a) THEN IsNan(e.sign)
        ELSE IF FZero(a) THEN FZero(e.sign)
        ELSE e.sign = WithSign(FOne(n), FNeg(a))
     /\ Same(e.floor, Floor(a))
     /\ Same(e.ceil, Ceil(a))
     /\ Same(e.round, Round(a))
     /\ e.isnan = B(IsNan(a)) /\ e.isinf = B(IsInf(a)) /\ e.isfin = B(IsFin(a))

(* Operands in quarters, results in sixteenths.                                  *)
Abs(x) == IF x < 0 THEN -x ELSE x
FD(p, q) == IF q > 0 THEN p \div q ELSE (-p) \div (-q)
QuartersOk(e) ==
  LET a == e.a
      b == e.b
  IN /\ CmpOk(e, IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1, TRUE)
     /\ e.add = 4 * (a + b) /\ e.add3 = 4 * (a + b + b)
     /\ e.sub = 4 * (a - b) /\ e.mul = a * b
     /\ IF b = 0 THEN e.fdiv = "E3" /\ e.mod = "E3"
        ELSE e.fdiv = 16 * FD(a, b) /\ e.mod = 4 * (a - FD(a, b) * b)
     /\ e.max = 4 * (IF a > b THEN a ELSE b) /\ e.min = 4 * (IF a < b THEN a ELSE b)
     /\ e.floor = 16 * (a \div 4) /\ e.ceil = -16 * ((-a) \div 4)
     /\ e.round = 16 * (IF a >= 0 THEN (a + 2) \div 4 ELSE -((2 - a) \div 4))
     /\ e.neg = -4 * a /\ e.abs = 4 * Abs(a)
     /\ e.sign = 16 * (IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0)
     /\ b # 0 => /\ e.back = 4 * a
                 /\ e.fmod = 4 * (IF a >= 0 THEN (a % Abs(b)) ELSE -((-a) % Abs(b)))

RECURSIVE SCmp(_, _, _)
SCmp(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE SCmp(a, b, i + 1)

Ok(e) ==
  CASE e.op = "pair" ->
         IF e.t \in {"f32", "f64"} THEN FloatOk(e) ELSE IntOk(e, e.t # "u64")
    [] e.op = "quarters" -> QuartersOk(e)
    [] e.op = "str" -> CmpOk(e, SCmp(e.a, e.b, 1), TRUE)
    [] e.op = "bool" -> CmpOk(e, IF e.a < e.b THEN -1 ELSE IF e.a = e.b THEN 0 ELSE 1, TRUE)

Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
