------------------------------- MODULE MC_Jagged -------------------------------
(* Laws of jagged shapes over all small shapes. *)
EXTENDS Jagged, TLC
CONSTANTS MaxRank, MaxRow, MaxSize
VARIABLES other
vars == <<shape, other>>
(* All shapes are reached by adding one dimension at a time; the second        *)
(* variable is a shape with a common prefix.                                   *)
Dims(n) == {d \in [1..n -> 0..MaxRow] : Sum(d) <= MaxSize}
Grow(sh) == IF Len(sh) = MaxRank THEN {} ELSE {Append(sh, d) : d \in Dims(JSize(sh))}
Init == shape = << >> /\ other = << >>
Next == \/ \E d \in Grow(shape) : shape' = d /\ (other' = other \/ (other = shape /\ other' \in Grow(other)))
        \/ other' \in Grow(other) /\ shape' = shape /\ Len(other) < Len(shape)
Spec == Init /\ [][Next]_vars
Rank == Len(shape)
ShapeInv ==
  /\ TRUE = JValid(shape)
  /\ ShapeOf(Index(shape), Rank) = shape
  /\ Leaves(Index(shape), Rank) = [k \in 1..JSize(shape) |-> k]
  /\ OfEdges([k \in 1..Rank |-> DimEdge(shape, k)]) = shape
  /\ TRUE = (\A f \in 0..Rank : \A t \in f..Rank : LET fl == Flatten(shape, f, t) IN
       /\ JValid(fl) /\ JSize(fl) = JSize(shape) /\ Len(fl) = Rank - (t - f) + 1
       /\ (t = f + 1 => fl = shape)
       /\ SubSeq(fl, 1, f) = SubSeq(shape, 1, f)
       /\ SubSeq(fl, f + 2, Len(fl)) = SubSeq(shape, t + 1, Rank)
       \* as the composition of the edges, or a unit edge
       /\ (f < t => DimEdge(fl, f + 1) = Compose([k \in 1..t - f |-> DimEdge(shape, f + k)]))
       /\ (f = t => fl[f + 1] = [k \in 1..JSize(Outer(shape, f)) |-> 1])
       \* the elements stay in order
       /\ Leaves(FlattenT(Index(shape), f, t), Len(fl)) = [k \in 1..JSize(shape) |-> k])
  /\ TRUE = (\A f \in 0..Rank : LET r == Outer(shape, f) IN
       /\ IsPrefixOf(r, shape)
       /\ AddDims(r, [k \in 1..Rank - f |-> DimEdge(shape, f + k)]) = shape
       /\ LET w == Broadcast(r, shape) IN
            /\ Monotone(w.map) /\ Child(w) = JSize(shape)
            /\ w = (IF f = Rank THEN Uniform(JSize(shape), 1) ELSE Compose([k \in 1..Rank - f |-> DimEdge(shape, f + k)])))
JoinInv == TRUE = (
  Len(other) = Rank => \A d \in 0..Rank, stack \in BOOLEAN : CanJoin(<<shape, other>>, d, stack) =>
    LET shs == <<shape, other>>
        j == JoinShape(shs, d, stack)
        vs == <<[k \in 1..JSize(shape) |-> k], [k \in 1..JSize(other) |-> 100 + k]>>
        w == JoinVals(shs, vs, d, stack) IN
      /\ JValid(j) /\ JSize(j) = JSize(shape) + JSize(other)
      /\ SubSeq(j, 1, d) = SubSeq(shape, 1, d)
      /\ SelectSeq(w, LAMBDA x : x < 100) = vs[1]
      /\ SelectSeq(w, LAMBDA x : x > 100) = vs[2]
      \* stacking is concatenation along a new unit dimension
      /\ (stack => j = JoinShape(<<Flatten(shape, d, d), Flatten(other, d, d)>>, d, FALSE))
      \* joining one shape only
      /\ (~stack => JoinShape(<<shape>>, d, FALSE) = shape)
      \* concatenation is associative
      /\ (~stack => JoinShape(<<j, shape>>, d, FALSE) = JoinShape(<<shape, other, shape>>, d, FALSE)))
=============================================================================
