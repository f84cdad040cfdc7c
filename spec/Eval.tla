-------------------------------- MODULE Eval --------------------------------
(* What an expression means: the value of every node of a graph, computed      *)
(* bottom-up.  A value is a sequence of integers:                               *)
(*   i <<v>>   o <<1, v>> or <<0, 0>>   u <<1>> or <<0>>   t <<x, y>>   p <<o, t>>       *)
(* and Err is the value of a node whose computation fails.                      *)
EXTENDS Integers, Sequences, FiniteSets
Err == <<-1, -1, -1>>
(* C++'s remainder has the sign of the dividend; the operators stay above 0.     *)
Lin(x, y) == LET s == 3 * x + 7 * y + 1 IN IF s >= 0 THEN s % 1009 ELSE -((-s) % 1009)
Odd(y) == y % 2 = 1
RECURSIVE Loop(_, _, _)
Loop(x, y, n) == IF x < n THEN Loop(x + 1 + (n % 2), Lin(y, x), n) ELSE <<x, y>>
Int1(v) == <<v>>
Bit(c) == IF c THEN <<1>> ELSE <<0>>
(* A node with its arguments' values; lazy: a choice needs only one branch.       *)
Apply(n, a, row, lazy) ==
  LET k == n.k  X == a[1][1]  Y == a[2][1] IN
  IF k \in {"leaf", "qleaf"} THEN row[n.v[1]]
  ELSE IF k = "lit" THEN n.v
  ELSE IF k \in {"where", "cwhere"} THEN
         IF a[1] = Err \/ (~lazy /\ Err \in {a[2], a[3]}) THEN Err ELSE IF X = 1 THEN a[2] ELSE a[3]
  ELSE IF \E j \in 1..Len(a) : a[j] = Err THEN Err
  ELSE CASE k = "lin" -> <<Lin(X, Y)>>
         [] k = "lam" -> <<Lin(Lin(X, Y), X)>>
         [] k = "lamwhere" -> IF X < Y THEN <<Lin(X, Y)>> ELSE <<Y>>
         [] k = "opt" -> IF Odd(Y) THEN <<0, 0>> ELSE <<1, X>>
         [] k = "val" -> IF X = 1 THEN <<a[1][2]>> ELSE <<7>>
         [] k = "has" -> <<X>>
         [] k = "less" -> Bit(X < Y)
         [] k = "inv" -> IF X % 5 = 0 THEN Err ELSE <<X>>
         [] k = "tup" -> <<X, Y>>
         [] k = "nth0" -> <<a[1][1]>>
         [] k = "nth1" -> <<a[1][2]>>
         [] k = "pack" -> a[1] \o a[2]
         [] k = "p0" -> <<a[1][1], a[1][2]>>
         [] k = "p1" -> <<a[1][3], a[1][4]>>
         [] k = "name" -> a[1]
         [] k = "while" -> Loop(a[1][1], a[1][2], Y)
RECURSIVE Vals(_, _, _, _)
Vals(ns, i, row, lazy) ==
  IF i = 0 THEN <<>>
  ELSE LET vs == Vals(ns, i - 1, row, lazy)
           n == ns[i] IN
       Append(vs, Apply(n, [j \in 1..Len(n.a) |-> vs[n.a[j]]], row, lazy))
(* The nodes that take part, given the outputs.                                   *)
RECURSIVE Reach(_, _, _)
Reach(ns, i, s) ==
  IF i = 0 THEN s
  ELSE Reach(ns, i - 1, IF i \in s THEN s \cup {ns[i].a[j] : j \in 1..Len(ns[i].a)} ELSE s)
(* Nodes that depend on no input.                                                 *)
RECURSIVE Fixed(_, _)
Fixed(ns, i) ==
  IF i = 0 THEN {}
  ELSE LET s == Fixed(ns, i - 1) IN
       IF ns[i].k \notin {"leaf", "qleaf"} /\ \A j \in 1..Len(ns[i].a) : ns[i].a[j] \in s THEN s \cup {i} ELSE s
Uses(ns, s, i) == Cardinality({p \in s \X (1..3) : p[2] <= Len(ns[p[1]].a) /\ ns[p[1]].a[p[2]] = i})
=============================================================================
