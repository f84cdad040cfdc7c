------------------------------- MODULE Casts --------------------------------
(* Types are [s |-> scalar, k |-> shape]; shape 0 scalar, 1 optional, 2 dense   *)
(* array, 3 array.  Tuples have no scalar and no shape.  The implicit casts are *)
(* an order on scalars and an order on shapes; the common type of two types is  *)
(* their least upper bound.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Scalars == {"i32", "i64", "f32", "f64", "wf", "text", "bytes", "bool", "unit"}
Shapes == 0..3
Null == [s |-> "none", k |-> 0]
IsTuple(t) == t.s = "tup"
Simple == [s : Scalars, k : Shapes]
Types == Simple \cup {[s |-> "tup", k |-> 0], [s |-> "tup", k |-> 1]}

SEdge == {<<"i32", "i64">>, <<"i64", "f32">>, <<"wf", "f32">>, <<"f32", "f64">>}
RECURSIVE SUp(_)
SUp(S) == LET T == S \cup {p[2] : p \in {q \in SEdge : q[1] \in S}} IN IF T = S THEN S ELSE SUp(T)
SLeqT == [a \in Scalars |-> SUp({a})]
SLeq(a, b) == b \in SLeqT[a]
\* Broadcasting a value to an array is a separate permission.
KLeq(a, b, bc) == a = b \/ (a = 0 /\ b = 1) \/ (bc /\ a < 2 /\ b >= 2)
Leq(a, b, bc) == a = b \/ (a \in Simple /\ b \in Simple /\ SLeq(a.s, b.s) /\ KLeq(a.k, b.k, bc))

\* Least upper bounds.
SJoinOf(a, b) == LET U == {x \in Scalars : SLeq(a, x) /\ SLeq(b, x)}
                     M == {x \in U : \A y \in U : SLeq(x, y)}
                 IN IF M = {} THEN "none" ELSE CHOOSE x \in M : TRUE
SJoinT == [a \in Scalars |-> [b \in Scalars |-> SJoinOf(a, b)]]
SJoin(a, b) == SJoinT[a][b]
KJoin(a, b, bc) == LET U == {x \in Shapes : KLeq(a, x, bc) /\ KLeq(b, x, bc)}
                       M == {x \in U : \A y \in U : KLeq(x, y, bc)}
                   IN IF M = {} THEN -1 ELSE CHOOSE x \in M : TRUE
Common(a, b, bc) ==
  IF a = Null \/ b = Null THEN Null
  ELSE IF a = b THEN a
  ELSE IF IsTuple(a) \/ IsTuple(b) THEN Null
  ELSE LET s == SJoin(a.s, b.s)
           k == KJoin(a.k, b.k, bc)
       IN IF s = "none" \/ k = -1 THEN Null ELSE [s |-> s, k |-> k]
RECURSIVE CommonL(_, _)
CommonL(ts, bc) == IF ts = <<>> THEN Null
                   ELSE IF Len(ts) = 1 THEN ts[1]
                   ELSE Common(CommonL(SubSeq(ts, 1, Len(ts) - 1), bc), ts[Len(ts)], bc)
Can(a, b, bc) == b # Null /\ Common(a, b, bc) = b

\* q with its shape raised to the targets' shapes.
RECURSIVE Raise(_, _)
Raise(k, ts) == IF ts = <<>> \/ k = -1 THEN k
                ELSE IF ts[1] \notin Simple THEN -1
                ELSE Raise(KJoin(k, ts[1].k, TRUE), Tail(ts))
Broadcast(ts, q) == IF q \notin Simple THEN Null
                    ELSE LET k == Raise(q.k, ts) IN IF k = -1 THEN Null ELSE [s |-> q.s, k |-> k]

Decay(t) == IF t.s = "wf" THEN [s |-> "f64", k |-> t.k] ELSE t
DecayL(ts) == [i \in 1..Len(ts) |-> Decay(ts[i])]
=============================================================================
