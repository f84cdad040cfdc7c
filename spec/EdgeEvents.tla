------------------------------ MODULE EdgeEvents ------------------------------
(* The edges described in events of traces, and the edges shown by them.       *)
EXTENDS Edges

Base(d) == CASE d.how = "split" -> IF ValidSplit(d.v) THEN SplitEdge(d.v) ELSE None
             [] d.how = "map" -> IF ValidMap(d.v, d.parent) THEN MapEdge(d.v, d.parent) ELSE None
             [] d.how = "unif" -> IF d.parent >= 0 /\ d.group >= 0 THEN Uniform(d.parent, d.group) ELSE None
Denoted(d) == LET x == Base(d) IN
  IF "via" \notin DOMAIN d \/ x = None THEN x
  ELSE IF d.via = "map" THEN AsMap(x)
  ELSE IF d.via = "split" /\ AsSplit(x) # None THEN AsSplit(x)
  ELSE x
Shown(o, x) == o.form = x.form /\ o.parent = x.parent /\ o.child = Child(x) /\ o.vals = Values(x)
EdgeIs(o, x) == IF x = None THEN ~o.ok ELSE o.ok /\ Shown(o, x)

=============================================================================
