------------------------------- MODULE Forest -------------------------------
(* Decision forests. A tree is a sequence of split nodes, each with the ids of *)
(* its two children, and a sequence of adjustments, one more than the nodes.   *)
(* Id x >= 0 is node x, id -1-a is adjustment a; the root is node 0, or the     *)
(* only adjustment. The value of a forest is the sum of the adjustments that    *)
(* its selected trees reach, each multiplied by the weight of its tree.         *)
EXTENDS Integers, Sequences, FiniteSets
Missing == -99
NaN == 99
NegZero == 98   \* a second name of zero
FV(x) == IF x = NegZero THEN 0 ELSE x
Ran(s) == {s[i] : i \in 1..Len(s)}
\* the type of input each kind of condition reads
TypeOf(c) == CASE c.k \in {"iv", "fset"} -> "f" [] c.k = "iset" -> "i" [] c.k = "bset" -> "t"
HoldsFor(c, x) ==
  CASE c.k = "iv" -> x # Missing /\ x # NaN /\ c.a # NaN /\ c.b # NaN /\ FV(c.a) <= FV(x) /\ FV(x) <= FV(c.b)
    [] c.k = "fset" -> IF x = Missing THEN c.miss ELSE x # NaN /\ FV(x) \in {FV(v) : v \in Ran(c.vs)}
    [] OTHER -> IF x = Missing THEN c.miss ELSE x \in Ran(c.vs)
Holds(c, row) == HoldsFor(c, row[c.in + 1])
Root(t) == IF Len(t.nodes) = 0 THEN -1 ELSE 0
RECURSIVE Reach(_, _, _)
Reach(t, id, row) == IF id < 0 THEN -id
                     ELSE Reach(t, IF Holds(t.nodes[id + 1].c, row) THEN t.nodes[id + 1].t ELSE t.nodes[id + 1].f, row)
Value(t, row) == t.adj[Reach(t, Root(t), row)] * t.w
\* a filter selects trees by the step and the submodel they are tagged with
Selected(f, t) == t.step >= f.from /\ (f.to = -1 \/ t.step < f.to) /\ (Len(f.subs) = 0 \/ t.sub \in Ran(f.subs))
RECURSIVE SumOf(_, _, _, _)
SumOf(ts, f, row, i) == IF i > Len(ts) THEN 0 ELSE SumOf(ts, f, row, i + 1) + IF Selected(f, ts[i]) THEN Value(ts[i], row) ELSE 0
Eval(ts, f, row) == SumOf(ts, f, row, 1)
All == [from |-> 0, to |-> -1, subs |-> <<>>]
Disjoint(ts, fs) == \A t \in Ran(ts) : Cardinality({i \in 1..Len(fs) : Selected(fs[i], t)}) <= 1
\* construction
IdOk(t, id) == IF id < 0 THEN -id <= Len(t.adj) ELSE id > 0 /\ id < Len(t.nodes)
\* every node but the root, and every adjustment, has one parent
Parents(t, id) == Cardinality({<<i, s>> \in (1..Len(t.nodes)) \X {"f", "t"} : (IF s = "f" THEN t.nodes[i].f ELSE t.nodes[i].t) = id})
ValidTree(t) == /\ t.step >= 0 /\ t.sub >= 0 /\ Len(t.adj) = Len(t.nodes) + 1
                /\ \A n \in Ran(t.nodes) : IdOk(t, n.f) /\ IdOk(t, n.t) /\ Parents(t, n.f) = 1 /\ Parents(t, n.t) = 1
CondsOf(ts) == UNION {{n.c : n \in Ran(t.nodes)} : t \in Ran(ts)}
Valid(ts) == (\A t \in Ran(ts) : ValidTree(t)) /\ Cardinality({<<c.in, TypeOf(c)>> : c \in CondsOf(ts)}) = Cardinality({c.in : c \in CondsOf(ts)})
Largest(S) == IF S = {} THEN 0 ELSE 1 + CHOOSE x \in S : \A y \in S : y <= x
\* --- two other ways to evaluate a tree -----------------------------------
\* the leaves from the false side to the true side
RECURSIVE Leaves(_, _)
Leaves(t, id) == IF id < 0 THEN <<-id>> ELSE Leaves(t, t.nodes[id + 1].f) \o Leaves(t, t.nodes[id + 1].t)
\* for each split, the positions of the leaves on its false side
RECURSIVE Masks(_, _, _)
Masks(t, id, base) ==
  IF id < 0 THEN {} ELSE
  LET n == t.nodes[id + 1]
      k == Len(Leaves(t, n.f)) IN {<<n.c, (base + 1)..(base + k)>>} \cup Masks(t, n.f, base) \cup Masks(t, n.t, base + k)
\* the first leaf that no condition rules out
ByMasks(t, row) ==
  LET dead == UNION {m[2] : m \in {x \in Masks(t, Root(t), 0) : Holds(x[1], row)}}
      ls == Leaves(t, Root(t))
      at == CHOOSE i \in 1..Len(ls) : i \notin dead /\ \A j \in 1..Len(ls) : j \notin dead => i <= j IN t.adj[ls[at]] * t.w
\* a tree over one numeric input is constant between the bounds of its conditions
Points(t) == UNION {IF n.c.k = "iv" THEN {FV(n.c.a), FV(n.c.b)} ELSE {FV(v) : v \in Ran(n.c.vs)} : n \in Ran(t.nodes)}
SamePiece(t, x, y) == \A p \in Points(t) : (p < FV(x)) = (p < FV(y)) /\ (p = FV(x)) = (p = FV(y))
=============================================================================
