-------------------------------- MODULE Dom ---------------------------------
(* Control-flow graphs: node 0 is the entry, every edge goes to a larger node,  *)
(* every node is reachable.  Dominance is defined through paths only.           *)
EXTENDS Integers, Sequences, FiniteSets

\* A graph is g : 1..n -> Seq(nodes); node v is g[v+1].
N(g) == Len(g)
Nodes(g) == 0..(N(g) - 1)
Succ(g, v) == {g[v + 1][i] : i \in 1..Len(g[v + 1])}
Valid(g) ==
  /\ N(g) > 0
  /\ \A v \in Nodes(g) : \A w \in Succ(g, v) : v < w /\ w < N(g)
  /\ \A w \in Nodes(g) \ {0} : \E v \in Nodes(g) : w \in Succ(g, v)

\* Edges v -> w with multiplicity.
Mult(g, v, w) == Cardinality({i \in 1..Len(g[v + 1]) : g[v + 1][i] = w})

RECURSIVE Grow(_, _, _)
Grow(g, S, x) ==
  LET T == S \cup (UNION {Succ(g, v) : v \in S} \ {x})
  IN IF T = S THEN S ELSE Grow(g, T, x)
\* The nodes that some path from the entry reaches without passing through x.
Avoiding(g, x) == IF x = 0 THEN {} ELSE Grow(g, {0}, x)

\* dom[x]: the nodes every path to which passes through x.
DomOf(g) == [x \in Nodes(g) |-> Nodes(g) \ Avoiding(g, x)]
\* The last other node every path from the entry passes through.
IdomOf(g, dom) ==
  [v \in Nodes(g) |->
     IF v = 0 THEN 0
     ELSE CHOOSE d \in Nodes(g) \ {v} :
            /\ v \in dom[d]
            /\ \A x \in Nodes(g) \ {v} : v \in dom[x] => d \in dom[x]]
DepthOf(g, dom) == [v \in Nodes(g) |-> Cardinality({x \in Nodes(g) : v \in dom[x]}) - 1]
\* x dominates a predecessor of w but does not strictly dominate w.
Frontier(g, dom, x) ==
  {w \in Nodes(g) : /\ \E v \in dom[x] : w \in Succ(g, v)
                    /\ ~(w \in dom[x] /\ w # x)}

\* Every global node keeps one incoming edge, from its dominator.
ExtMult(g, idom, G, v, w) ==
  IF w \in G /\ w # 0 THEN (IF v = idom[w] THEN 1 ELSE 0) ELSE Mult(g, v, w)
=============================================================================
