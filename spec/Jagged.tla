-------------------------------- MODULE Jagged --------------------------------
(* A jagged shape of rank n is a sequence of n dimensions; dimension k gives    *)
(* the size of every row of dimension k - 1 (dimension 0 has a single row).     *)
(* What it denotes are nested lists: n levels of lists around the elements.     *)
(* Every operation is specified by what it does to the nested lists.            *)
EXTENDS Edges

JValid(sh) == \A k \in 1..Len(sh) : /\ \A j \in 1..Len(sh[k]) : sh[k][j] >= 0
                                    /\ Len(sh[k]) = (IF k = 1 THEN 1 ELSE Sum(sh[k - 1]))
JSize(sh) == IF sh = << >> THEN 1 ELSE Sum(sh[Len(sh)])

(* Nested lists of the elements v under the shape. *)
Group(v, sizes) == LET p == Prefix(sizes) IN [k \in 1..Len(sizes) |-> SubSeq(v, p[k] + 1, p[k + 1])]
RECURSIVE Fold(_, _)
Fold(sh, v) == IF sh = << >> THEN v ELSE Fold(SubSeq(sh, 1, Len(sh) - 1), Group(v, sh[Len(sh)]))
Nest(sh, v) == Fold(sh, v)[1]

(* The rows of depth k of nested lists, in order; depth 0 is the whole. *)
RECURSIVE RowsAt(_, _)
RowsAt(t, k) == IF k = 0 THEN <<t>> ELSE FlattenSeq(RowsAt(t, k - 1))
ShapeOf(t, rank) == [k \in 1..rank |-> LET r == RowsAt(t, k - 1) IN [j \in 1..Len(r) |-> Len(r[j])]]
Leaves(t, rank) == RowsAt(t, rank)
Index(sh) == Nest(sh, [k \in 1..JSize(sh) |-> k])

(* Merge the levels from..to of lists into one; an empty range inserts a level. *)
Merge(n, t) == IF n = 0 THEN <<t>> ELSE RowsAt(t, n)
RECURSIVE FlattenT(_, _, _)
FlattenT(t, from, to) == IF from = 0 THEN Merge(to, t)
                         ELSE [j \in 1..Len(t) |-> FlattenT(t[j], from - 1, to - 1)]

(* Several nested lists at the same time. *)
RECURSIVE ConcatT(_, _), StackT(_, _)
ConcatT(ts, d) == IF d = 0 THEN FlattenSeq(ts)
                  ELSE [j \in 1..Len(ts[1]) |-> ConcatT([k \in 1..Len(ts) |-> ts[k][j]], d - 1)]
StackT(ts, d) == IF d = 0 THEN ts
                 ELSE [j \in 1..Len(ts[1]) |-> StackT([k \in 1..Len(ts) |-> ts[k][j]], d - 1)]

Flatten(sh, from, to) == ShapeOf(FlattenT(Index(sh), from, to), Len(sh) - (to - from) + 1)
Outer(sh, from) == SubSeq(sh, 1, from)
Flat(n) == << <<n>> >>

(* Edges given one after the other; None if they do not form a shape. *)
NoShape == << <<-1>> >>
OfEdges(es) == IF \A k \in 1..Len(es) : /\ es[k] # None
                                        /\ Monotone(es[k].map)
                                        /\ es[k].parent = (IF k = 1 THEN 1 ELSE Child(es[k - 1]))
               THEN [k \in 1..Len(es) |-> Sizes(es[k])] ELSE NoShape
DimEdge(sh, k) == FromSizes(sh[k])
AddDims(sh, es) == OfEdges([k \in 1..Len(sh) |-> DimEdge(sh, k)] \o es)

IsPrefixOf(sh, other) == Len(sh) <= Len(other) /\ SubSeq(other, 1, Len(sh)) = sh
(* Every element of the deeper shape belongs to the element of the shorter     *)
(* shape whose nested list it is in.                                           *)
Belongs(sh, other) ==
  LET sub == RowsAt(Index(other), Len(sh))
      n == Len(other) - Len(sh)
  IN FlattenSeq([k \in 1..Len(sub) |-> [j \in 1..Len(RowsAt(sub[k], n)) |-> k - 1]])
Broadcast(sh, other) == [form |-> "split", parent |-> JSize(sh), map |-> Belongs(sh, other)]

(* Concatenation and stacking of shapes and of arrays. *)
SameRank(shs) == \A k \in 1..Len(shs) : Len(shs[k]) = Len(shs[1])
CanJoin(shs, d, stack) ==
  /\ Len(shs) > 0
  /\ SameRank(shs)
  /\ d >= 0 /\ d < Len(shs[1]) + (IF stack THEN 1 ELSE 0)
  /\ \A k \in 1..Len(shs) : SubSeq(shs[k], 1, d) = SubSeq(shs[1], 1, d)
JoinT(ts, d, stack) == IF stack THEN StackT(ts, d) ELSE ConcatT(ts, d)
JoinRank(shs, stack) == Len(shs[1]) + (IF stack THEN 1 ELSE 0)
JoinShape(shs, d, stack) == ShapeOf(JoinT([k \in 1..Len(shs) |-> Index(shs[k])], d, stack), JoinRank(shs, stack))
JoinVals(shs, vs, d, stack) == Leaves(JoinT([k \in 1..Len(shs) |-> Nest(shs[k], vs[k])], d, stack), JoinRank(shs, stack))

(* Positions as operators take them: from the end if negative, then clamped. *)
Clamp(i, n) == LET j == IF i < 0 THEN i + n ELSE i IN IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j

(* Four registers with shapes. *)
VARIABLE shape
jvars == <<shape>>
JInit == shape = [i \in 1..4 |-> << >>]
Put(i, sh) == shape' = [shape EXCEPT ![i] = sh]
Keep == shape' = shape
Try(i, sh, ok) == IF sh = NoShape THEN ~ok /\ Keep ELSE ok /\ Put(i, sh)
=============================================================================
