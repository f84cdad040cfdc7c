------------------------------- MODULE MC_Dom -------------------------------
(* All graphs on up to NMax nodes: existence and uniqueness of the immediate    *)
(* dominator, the inductive rule (meet of the predecessors in the tree), the    *)
(* meaning of an empty frontier, externalization keeps the tree.                *)
EXTENDS Dom, SequencesExt, TLC
NMax == 5
VARIABLE g
SetsAbove(v, n) == SUBSET {w \in 0..(n - 1) : w > v}
Init == g = <<>>
\* Extend by one node with a nonempty set of predecessors.
Next == \/ g = <<>> /\ g' = << <<>> >>
        \/ /\ Len(g) > 0 /\ Len(g) < NMax
           /\ \E P \in SUBSET (0..(Len(g) - 1)) \ {{}} :
                g' = [i \in 1..(Len(g) + 1) |->
                        IF i > Len(g) THEN <<>>
                        ELSE IF i - 1 \in P THEN Append(g[i], Len(g)) ELSE g[i]]
RECURSIVE Chain(_, _)
Chain(idom, v) == IF v = 0 THEN {0} ELSE {v} \cup Chain(idom, idom[v])
Laws ==
  g # <<>> =>
  LET dom == DomOf(g)
      idom == IdomOf(g, dom)
      depth == DepthOf(g, dom)
      preds(w) == {v \in Nodes(g) : w \in Succ(g, v)}
  IN /\ Valid(g)
     \* dominators of a node = its chain in the tree
     /\ \A v \in Nodes(g) : {x \in Nodes(g) : v \in dom[x]} = Chain(idom, v)
     /\ \A v \in Nodes(g) \ {0} : depth[v] = depth[idom[v]] + 1 /\ idom[v] < v
     \* inductive rule
     /\ \A v \in Nodes(g) \ {0} :
          idom[v] = Max({x \in Nodes(g) : \A p \in preds(v) : x \in Chain(idom, p)})
     \* empty frontier = all nodes reachable from x are only reachable through x
     /\ \A x \in Nodes(g) : (Frontier(g, dom, x) = {}) <=> (Grow(g, {x}, -1) \subseteq dom[x])
     \* externalization keeps the tree
     /\ \A G \in SUBSET Nodes(g) :
          LET h == [i \in 1..Len(g) |->
                      SetToSortSeq({w \in Nodes(g) : ExtMult(g, idom, G, i - 1, w) > 0}, <)]
          IN Valid(h) /\ IdomOf(h, DomOf(h)) = idom
=============================================================================
