------------------------------- MODULE MC_Edges -------------------------------
(* Laws of edges over all small edges.  A state is a chain of edges A <- B <- C. *)
EXTENDS Edges, TLC
CONSTANTS MaxP, MaxC
Maps(p, n) == [1..n -> {M} \cup 0..p - 1]
Forms(m) == IF Monotone(m) THEN {"map", "split"} ELSE {"map"}
EdgesOf(p, n) == UNION {{[form |-> f, parent |-> p, map |-> m] : f \in Forms(m)} : m \in Maps(p, n)}
Over2 == 0..2
Vec(n) == [1..n -> {M, 1, 2}]
VARIABLES x, y, z, v
vars == <<x, y, z, v>>
Init == \E p \in 0..MaxP, n \in 0..MaxC, k \in 0..MaxC :
          /\ x \in EdgesOf(p, n)
          /\ y \in EdgesOf(n, k)
          /\ z \in (IF k > 0 THEN {MapEdge([c \in 1..2 |-> k - 1], k), MapEdge(<<M, 0>>, k), SplitEdge([q \in 1..k + 1 |-> q - 1])} ELSE {Uniform(0, 1)})
          /\ v \in Vec(p)
Spec == Init /\ [][UNCHANGED vars]_vars
Inv ==
  LET xy == Compose(<<x, y>>) IN
  /\ TRUE = ValidMap(xy.map, xy.parent)
  /\ (xy.form = "split") = (x.form = "split" /\ y.form = "split")
  /\ (xy.form = "split") => Monotone(xy.map)
  /\ Compose(<<xy, z>>) = Compose(<<x, Compose(<<y, z>>)>>)
  /\ Compose(<<xy, z>>) = Compose(<<x, y, z>>)
  /\ (IF x.form = "split" THEN SplitEdge(Values(x)) = x ELSE MapEdge(Values(x), x.parent) = x)
  /\ (x.form = "split") => ValidSplit(Values(x)) /\ FromSizes(Sizes(x)) = x
  /\ TRUE = (AsSplit(x) = None \/ AsMap(AsSplit(x)) = AsMap(x))
  /\ Expand(xy, v) = Expand(y, Expand(x, v))
  /\ Sum(Sizes(x)) = Cardinality({c \in 1..Child(x) : x.map[c] # M})
  /\ LET w == Expand(xy, v) IN
       /\ Agg("count", xy, w) = Agg("sum", x, Agg("count", y, w))
       /\ Agg("sum", xy, w) = Agg("sum", x, Agg("sum", y, w))
       /\ Agg("max", xy, w) = Agg("max", x, Agg("max", y, w))
       /\ TRUE = (\A p \in 1..x.parent : v[p] = M \/ Agg("count", xy, w)[p] = 0 \/ Agg("collapse", xy, w)[p] = v[p])
       /\ (Full(x.map) /\ x.parent > 0) => TRUE = (\A c \in 1..Child(x) : GroupBy(x, x.map).map[c] # M)
  /\ LET s == Sizes(x)
         l2 == PairLeft(s)
         r2 == PairRight(s)
         kids == FromSizes(s) IN
       /\ Child(l2) = Child(r2)
       /\ Monotone(l2.map)
       /\ Compose(<<kids, l2>>).map = Compose(<<kids, r2>>).map
       /\ Cardinality({<<l2.map[k], r2.map[k]>> : k \in 1..Child(l2)}) = Child(l2)
  /\ (x.form = "split") =>
       LET ident == [c \in 1..Child(x) |-> c - 1 - Prefix(Sizes(x))[x.map[c] + 1]] IN
         /\ ~ResizeErr(x, Sizes(x), ident)
         /\ Resize(x, Sizes(x), ident).map = [c \in 1..Child(x) |-> c - 1]
         /\ Inverted(x, ident) = ident
=============================================================================
