----------------------------- MODULE MC_Curve ------------------------------
(* All lists of up to N points.                                                *)
EXTENDS Curve, TLC
CONSTANTS N, Top
Ys == {NInf, PInf} \cup 0..Top
Us == {NInf, -2, 0, 1, 3, PInf}
Args == {NInf, PInf} \cup -4..5
VARIABLES ps, step
vars == <<ps, step>>
Init == step = 0 /\ \E n \in 1..N : ps \in [1..n -> (Us \X Ys)] /\ Increasing(ps)
Next == step = 0 /\ step' = 1 /\ UNCHANGED ps
Spec == Init /\ [][Next]_vars
Le(a, b) ==                                   \* the order of results
  LET n(r) == IF r[1] = "is" THEN (IF r[2] = PInf THEN 99999 ELSE IF r[2] = NInf THEN -99999 ELSE r[2]) ELSE r[2]
      d(r) == IF r[1] = "is" THEN 1 ELSE r[3] IN n(a) * d(b) <= n(b) * d(a)
Same(a, b) == Le(a, b) /\ Le(b, a)
V(u) == At(ps, <<1, 1>>, u)
Finite == \A i \in 1..Len(ps) : ~Infinite(ps[i][1]) /\ ~Infinite(ps[i][2])
Swap(v) == IF v = PInf THEN NInf ELSE IF v = NInf THEN PInf ELSE -v
Mirror == [i \in 1..Len(ps) |-> <<Swap(ps[Len(ps) + 1 - i][1]), ps[Len(ps) + 1 - i][2]>>]
(* The plain reading of a list of finite points.                               *)
Plain(u) ==
  IF u <= ps[1][1] THEN <<"is", ps[1][2]>>
  ELSE IF u >= ps[Len(ps)][1] THEN <<"is", ps[Len(ps)][2]>>
  ELSE LET i == CHOOSE i \in 1..(Len(ps) - 1) : ps[i][1] <= u /\ u <= ps[i + 1][1] IN Line(ps[i], ps[i + 1], u)
Ok == Valid("lin", ps) # "no"
Inv ==
  /\ Finite => Valid("lin", ps) = "yes" /\ \A u \in Args : Same(V(u), Plain(u))
  /\ Valid("lin", ps) = Valid("lin", Mirror)
  /\ Ok =>
     /\ \A i \in 1..Len(ps) : Same(V(ps[i][1]), <<"is", ps[i][2]>>)
     /\ \A i \in 2..Len(ps) : \A u, v \in {u \in Args : ps[i - 1][1] <= u /\ u <= ps[i][1]} : u <= v =>
          IF ps[i - 1][2] <= ps[i][2] THEN Le(V(u), V(v)) ELSE Le(V(v), V(u))
     /\ \A u \in Args : Same(V(u), At(Mirror, <<1, 1>>, Swap(u)))
     /\ \A u \in Args : u < ps[1][1] => Same(V(u), V(ps[1][1]))
============================================================================
