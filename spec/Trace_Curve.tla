---------------------------- MODULE Trace_Curve ----------------------------
EXTENDS TraceBase, Curve
(* Results come in units of 1/256, rounded; special values above BIG.          *)
PINF == 2000000000
NINF == -2000000000
NAN == 1999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Special(y) == IF y = PInf THEN PINF ELSE IF y = NInf THEN NINF ELSE IF y = NaN THEN NAN ELSE y * 256
Power2(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128}
Near(r, want, exact, tol) ==
  IF want[1] = "is" THEN r = Special(want[2])
  ELSE IF Abs(r) > 9000000 THEN FALSE
  ELSE LET t == IF exact /\ Power2(want[3]) THEN 0 ELSE tol IN
       2 * Abs(r * want[3] - 256 * want[2]) <= (2 * t + 1) * want[3]
(* u is in quarters, of the argument or of its binary logarithm.                *)
Slope(e) == IF e.kind = "lin" THEN <<1, 4>> ELSE <<253, 1460>>
Sep(e) ==
  CASE e.via = "bar" -> "|"
    [] e.via = "none" -> ","
    [] e.via = "either" ->
         LET has(s) == \E i \in 1..Len(e.toks) : e.toks[i].k = s IN
         IF has(";") /\ has("|") THEN "" ELSE IF has("|") THEN "|" ELSE ";"
    [] OTHER -> ";"
Textual == {"spec", "bar", "none", "either", "opspec"}
Pts(e) == IF e.via \in Textual THEN Parsed(e.toks, Sep(e)) ELSE e.pts
Wellformed(e) == e.via \in Textual \/ ~e.spoilt
Status(e) == IF Wellformed(e) THEN Valid(e.kind, Pts(e)) ELSE "no"
Good(e) ==
  LET ps == Pts(e) IN
  /\ e.kindout = e.kind /\ e.cp = ps /\ e.text /\ e.bulk /\ e.asop
  /\ \A i \in 1..Len(e.args) :
       LET w == At(ps, Slope(e), e.args[i]) IN
       /\ Near(e.d[i], w, e.kind = "lin", 1)
       /\ Near(e.f[i], w, e.kind = "lin", IF e.kind = "lin" THEN 2 ELSE 6)
Ok(e) == CASE Status(e) = "no" -> ~e.ok
           [] Status(e) = "yes" -> e.ok /\ Good(e)
           [] OTHER -> e.ok => Good(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
