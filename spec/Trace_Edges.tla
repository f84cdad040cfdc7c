----------------------------- MODULE Trace_Edges -----------------------------
EXTENDS TraceBase, EdgeEvents

(* the edge an event is over; an edge to a scalar has one group *)
Over(e) == IF Has(e, "scalar") THEN MapEdge([c \in 1..e.scalar |-> 0], 1) ELSE Denoted(e.e)
ColsOk(args, n) == \A j \in 1..Len(args) : Len(args[j]) = n
Vals(args) == [j \in 1..Len(args) |-> args[j].v]
Fails(e) == ~Has(e, "badedge") /\ ~e.ok
Gives(e, v) == ~Has(e, "badedge") /\ e.ok /\ e.res = v

MkOk(e) == LET x == Denoted(e.e) IN
  /\ EdgeIs(e.edge, x)
  /\ x # None => /\ Shown(e.asmap, AsMap(x))
                 /\ EdgeIs(e.assplit, AsSplit(x))
                 /\ e.ss = (IF x.form = "split" THEN Sizes(x) ELSE << >>)
                 /\ e.sizes = Sizes(x)
                 /\ e.mapping = x.map
                 /\ e.shapes = <<x.parent, Child(x)>>
                 /\ Shown(e.other, x)
                 /\ Has(e, "viaop") => EdgeIs(e.viaop, x)
ComposeOk(e) == LET es == [k \in 1..Len(e.es) |-> Denoted(e.es[k])] IN
  IF \E k \in 1..Len(es) : es[k] = None THEN Has(e, "badedge")
  ELSE /\ ~Has(e, "badedge")
       /\ EdgeIs(e.edge, IF Chained(es) THEN Compose(es) ELSE None)
       /\ \A k \in 1..Len(es) : Shown(e.after[k], es[k])
EquivOk(e) == LET x == Denoted(e.e)
                  y == Denoted(e.e2) IN
  IF x = None \/ y = None THEN Has(e, "badedge")
  ELSE ~Has(e, "badedge") /\ e.res = <<Same(x, y), Same(x, y)>>

GroupOk(e) == LET x == Over(e)
                  a == Vals(e.args)
                  np == Len(e.ps)
                  pa == SubSeq(a, 1, np)
                  ca == SubSeq(a, np + 1, Len(a)) IN
  IF x = None THEN Has(e, "badedge")
  ELSE IF ~ColsOk(ca, Child(x)) \/ (~ColsOk(pa, x.parent) /\ ~Has(e, "scalar")) THEN Fails(e)
  ELSE IF GroupErr(x, e.ps, e.cs, e.withid, pa, ca) THEN Fails(e)
  ELSE Gives(e, CASE e.kind = "agg" -> GroupAgg(x, e.ps, e.cs, e.withid, pa, ca)
                  [] e.kind = "partial" -> GroupPartial(x, e.ps, e.cs, e.withid, pa, ca)
                  [] e.kind = "full" -> GroupFull(x, e.ps, e.cs, e.withid, pa, ca))
LibOk(e) == LET x == Over(e)
                a == Vals(e.args) IN
  IF x = None THEN Has(e, "badedge")
  ELSE IF ~ColsOk(a, Child(x)) THEN Fails(e)
  ELSE CASE e.acc = "cumcount" -> Gives(e, CumCount(x, a[1]))
         [] e.acc = "inverse" -> IF InverseErr(x, a[1]) THEN Fails(e) ELSE Gives(e, Inverted(x, a[1]))
         [] e.acc = "take" -> IF TakeErr(x, a[2], x) THEN Fails(e) ELSE Gives(e, Take(x, a[1], a[2], x))
         [] OTHER -> Gives(e, Agg(e.acc, x, a[1]))
ExpandOk(e) == LET x == Over(e)
                   v == e.args[1].v IN
  IF x = None THEN Has(e, "badedge")
  ELSE IF Len(v) # x.parent THEN Fails(e) ELSE Gives(e, Expand(x, v))
SizedOk(e) == LET v == e.args[1].v IN
  EdgeIs(e.edge, IF ~ValidSizes(v) THEN None
                 ELSE CASE e.f = "sizes" -> FromSizes(v) [] e.f = "left" -> PairLeft(v) [] e.f = "right" -> PairRight(v))
GroupByOk(e) == LET x == Over(e)
                    v == e.args[1].v IN
  IF x = None THEN Has(e, "badedge")
  ELSE EdgeIs(e.edge, IF Len(v) = Child(x) THEN GroupBy(x, v) ELSE None)
TakeOOOk(e) == LET x == Denoted(e.e)
                   y == Denoted(e.e2)
                   v == e.args[1].v
                   o == e.args[2].v IN
  IF x = None \/ y = None THEN Has(e, "badedge")
  ELSE IF Len(v) # Child(x) \/ Len(o) # Child(y) \/ x.parent # y.parent THEN Fails(e)
  ELSE IF TakeErr(x, o, y) THEN Fails(e) ELSE Gives(e, Take(x, v, o, y))
ResizeOk(e) ==
  LET x == IF Has(e, "scalar") THEN FromSizes(<<e.scalar>>) ELSE Denoted(e.e)
      ns == IF Has(e, "one") THEN [p \in 1..x.parent |-> e.one] ELSE e.ns.v
      oksizes == ValidSizes(ns) /\ Len(ns) = x.parent
  IN IF x = None THEN Has(e, "badedge")
     ELSE IF Has(e, "scalar") /\ e.side = "parent" THEN e.edge.ok = (e.one >= 0) /\ (e.edge.ok => e.edge.child = e.one)
     ELSE IF x.form # "split" THEN ~Has(e, "badedge") /\ ~e.edge.ok
     ELSE IF Has(e, "one") /\ e.one < 0 /\ x.parent = 0 /\ ~e.edge.ok THEN TRUE
     ELSE IF e.side = "parent" THEN EdgeIs(e.edge, IF oksizes THEN FromSizes(ns) ELSE None)
     ELSE EdgeIs(e.edge, IF oksizes /\ Len(e.offs.v) = Child(x) /\ ~ResizeErr(x, ns, e.offs.v) THEN Resize(x, ns, e.offs.v) ELSE None)
Ok(e) == CASE e.op = "mk" -> MkOk(e) [] e.op = "compose" -> ComposeOk(e) [] e.op = "equiv" -> EquivOk(e)
           [] e.op = "group" -> GroupOk(e) [] e.op = "lib" -> LibOk(e) [] e.op = "expand" -> ExpandOk(e)
           [] e.op = "sized" -> SizedOk(e) [] e.op = "resize" -> ResizeOk(e)
           [] e.op = "groupby" -> GroupByOk(e) [] e.op = "takeoo" -> TakeOOOk(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
