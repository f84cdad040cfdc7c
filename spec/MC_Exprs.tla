------------------------------ MODULE MC_Exprs ------------------------------
(* Small graphs: what identity and rewriting promise.                           *)
EXTENDS Exprs
Base == <<[i |-> "leaf", key |-> "x"], [i |-> "ph", key |-> "y"], [i |-> "lit", ty |-> "i32", v |-> 1],
          [i |-> "reg", name |-> "verif.f"], [i |-> "reg", name |-> "verif.g"],
          [i |-> "lam", name |-> "m", doc |-> "", sig |-> <<[n |-> "y", v |-> FALSE, def |-> 0]>>, body |-> 2]>>
Ops == {4, 5, 6}
CONSTANT MaxLen
VARIABLES I, R, B
Nodes(k) == {1, 2, 3} \cup 7..k
Calls(k) == {[i |-> "op", o |-> o, d |-> d] : o \in Ops, d \in {<<a>> : a \in Nodes(k)} \cup {<<a, b>> : a, b \in Nodes(k)}}
Init == I = Base /\ R = <<>> /\ B = Graph(Base)
Next == \/ Len(I) < MaxLen /\ R = <<>> /\ R' = R
           /\ \E c \in Calls(Len(I)) : I' = Append(I, c) /\ B' = Extend(I', B) /\ B'[Len(I')].ok
        \/ R = <<>> /\ Len(I) > 6 /\ I' = I /\ B' = B
           /\ R' \in {<<q>> : q \in Nodes(Len(I)) \X Nodes(Len(I))} \cup
                     IF Len(I) = MaxLen THEN {} ELSE {<<q, s>> : q \in Nodes(Len(I)) \X Nodes(Len(I)), s \in Nodes(Len(I)) \X Nodes(Len(I))}
Spec == Init /\ [][Next]_<<I, R, B>>
Live(k) == B[k].ok /\ ~B[k].op
\* The same class exactly for the same term.
Identity == R = <<>> => \A a, c \in {k \in 1..Len(I) : Live(k)} : (B[a].cls = B[c].cls) = (Tree(B, B[a].cls) = Tree(B, B[c].cls))
Applies == R # <<>> /\ \A i \in 1..Len(R) : Live(R[i][1]) /\ Live(R[i][2])
Trees == [i \in 1..Len(R) |-> <<Tree(B, B[R[i][1]].cls), Tree(B, B[R[i][2]].cls)>>]
Tops == {Tree(B, B[k].cls) : k \in {j \in 7..Len(I) : Live(j)}}
RECURSIVE In(_, _)
In(u, t) == u = t \/ (IsOp(t) /\ \E j \in 1..Len(t[3]) : In(u, t[3][j]))
Identities == \A i \in 1..Len(R) : Trees[i][1] = Trees[i][2]
Rewriting == Applies => LET Q == Trees IN \A t \in Tops :
  /\ (\A i \in 1..Len(R) : ~In(Q[i][1], t)) => T(Q, t) = t /\ S(Q, t) = t /\ D(Q, B, t, {}) = Good(t)
  /\ Identities => T(Q, t) = t /\ S(Q, t) = t
  \* a finished repeated rewriting has nothing left to rewrite
  /\ LET d == D(Q, B, t, {}) IN d.ok => T(Q, d.t) = d.t /\ D(Q, B, d.t, {}) = d
  \* for one rule on a leaf all agree
  /\ (Len(R) = 1 /\ ~IsOp(Q[1][1])) => T(Q, t) = S(Q, t)
Lowest == R = <<>> => \A t \in Tops : LET d == D(<<>>, B, t, {})
                          IN d.ok /\ Lower(B, d.t) = d.t /\ \A o \in {5, 6} : ~\E u \in Tops : In(u, d.t) /\ u[2] = OpName(B, o)
=============================================================================
