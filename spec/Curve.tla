------------------------------- MODULE Curve -------------------------------
(* Piecewise linear curves.  A curve is a kind and a list of points <<u, y>>,   *)
(* where u is the coordinate in which the curve is linear (the argument itself, *)
(* or its logarithm), extended by the two infinities and Low, an argument below *)
(* the domain of the logarithm.                                                 *)
EXTENDS Integers, Sequences
PInf == 9999
NInf == -9999
Low == -8000
NaN == 8888
Infinite(v) == v = PInf \/ v = NInf
Rank(u) == IF u = Low THEN -10001 ELSE u            \* below 0, whose logarithm is NInf
Increasing(ps) == \A i \in 2..Len(ps) : ps[i - 1][1] # NaN /\ ps[i][1] # NaN /\ Rank(ps[i - 1][1]) < Rank(ps[i][1])
(* The arguments that are themselves infinite.                                  *)
RawInfinite(kind, u) == u = PInf \/ (u = NInf /\ kind \in {"lin", "sym"})

(* Without the points that repeat the outermost values.                         *)
RECURSIVE TrimL(_)
TrimL(ps) == IF Len(ps) >= 2 /\ ps[1][2] = ps[2][2] THEN TrimL(Tail(ps)) ELSE ps
RECURSIVE TrimR(_)
TrimR(ps) == IF Len(ps) >= 2 /\ ps[Len(ps)][2] = ps[Len(ps) - 1][2] THEN TrimR(SubSeq(ps, 1, Len(ps) - 1)) ELSE ps
Trim(ps) == TrimR(TrimL(ps))

Monotone3(a, b, c) == (a < b /\ b < c) \/ (a > b /\ b > c)
(* An infinite end is the limit of its neighbouring segment (of slope 1 if      *)
(* there is one finite point only).                                             *)
EndsReachable(t) ==
  /\ Infinite(t[1][1]) = Infinite(t[1][2])
  /\ Infinite(t[Len(t)][1]) = Infinite(t[Len(t)][2])
  /\ Infinite(t[1][2]) /\ Len(t) >= 3 => Monotone3(t[1][2], t[2][2], t[3][2])
  /\ Infinite(t[Len(t)][2]) /\ Len(t) >= 3 => Monotone3(t[Len(t) - 2][2], t[Len(t) - 1][2], t[Len(t)][2])
  /\ \E i \in 1..Len(t) : ~Infinite(t[i][1])
Inner(t) == SelectSeq(t, LAMBDA p : ~Infinite(p[1]))
(* "yes", "no", or "any": infinite arguments next to constant parts may be      *)
(* refused even where the curve would be clear.                                 *)
Valid(kind, ps) ==
  IF Len(ps) = 0 \/ ~Increasing(ps) THEN "no"
  ELSE LET t == Trim(ps) IN
    IF Len(t) = 1 THEN "yes"
    ELSE IF ps[1][1] = Low \/ ~EndsReachable(t) \/ \E i \in 1..Len(t) : ~Infinite(t[i][1]) /\ Infinite(t[i][2]) THEN "no"
    ELSE IF Len(t) >= 3 /\ \/ RawInfinite(kind, ps[1][1]) /\ t[2][2] = t[3][2]
                           \/ RawInfinite(kind, ps[Len(ps)][1]) /\ t[Len(t) - 2][2] = t[Len(t) - 1][2] THEN "any"
    ELSE "yes"

(* The value at u, either a constant <<"is", y>> or a fraction <<"at", n, d>>,  *)
(* on the line through two inner points.                                        *)
Line(p, q, u) == <<"at", p[2] * (q[1] - p[1]) + (q[2] - p[2]) * (u - p[1]), q[1] - p[1]>>
Segment(c, u) == CHOOSE i \in 1..(Len(c) - 1) : (u <= c[i + 1][1] \/ i = Len(c) - 1) /\ (i > 1 => u > c[i][1])
(* A line through one point only has slope one, sl[1] / sl[2] per unit of u.    *)
At(ps, sl, u) ==
  LET t == Trim(ps)
      c == Inner(t) IN
  IF Len(t) = 1 THEN <<"is", t[1][2]>>
  ELSE IF u = NaN THEN <<"is", NaN>>
  ELSE IF Rank(u) <= Rank(t[1][1]) THEN <<"is", t[1][2]>>
  ELSE IF Rank(u) >= Rank(t[Len(t)][1]) THEN <<"is", t[Len(t)][2]>>
  ELSE IF Len(c) = 1 THEN <<"at", c[1][2] * sl[2] + (IF t[1][2] < t[Len(t)][2] THEN sl[1] ELSE -sl[1]) * (u - c[1][1]), sl[2]>>
  ELSE LET i == Segment(c, u) IN Line(c[i], c[i + 1], u)

(* The text of a curve: tokens of kinds "name", "num" and the punctuation.      *)
RECURSIVE Points(_, _, _)
Points(ts, i, sep) ==                                  \* from the opening brace of a point; <<>> if wrong
  IF i + 4 > Len(ts) THEN <<>>
  ELSE IF ~(ts[i].k = "{" /\ ts[i + 1].k = "num" /\ ts[i + 2].k = sep /\ ts[i + 3].k = "num" /\ ts[i + 4].k = "}") THEN <<>>
  ELSE LET p == <<ts[i + 1].v, ts[i + 3].v>> IN
    IF i + 5 <= Len(ts) /\ ts[i + 5].k = sep
    THEN LET rest == Points(ts, i + 6, sep) IN IF rest = <<>> THEN <<>> ELSE <<p>> \o rest
    ELSE IF i + 6 = Len(ts) /\ ts[i + 5].k = "}" /\ ts[i + 6].k = ")" THEN <<p>> ELSE <<>>
Parsed(ts, sep) ==
  IF Len(ts) >= 3 /\ ts[1].k = "name" /\ ts[2].k = "(" /\ ts[3].k = "{" /\ sep \in {";", "|"} THEN Points(ts, 4, sep) ELSE <<>>
=============================================================================
