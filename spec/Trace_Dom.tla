------------------------------ MODULE Trace_Dom -----------------------------
EXTENDS TraceBase, Dom
ToSet(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
SortedW(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* The tree t (recorded) is the dominator tree.
TreeOk(g, dom, idom, t) ==
  LET depth == DepthOf(g, dom) IN
  /\ t.n = N(g)
  /\ Len(t.par) = N(g) /\ t.pars = t.par
  /\ \A v \in Nodes(g) :
       /\ t.par[v + 1] = idom[v] /\ t.depth[v + 1] = depth[v]
       /\ Sorted(t.kids[v + 1])
       /\ ToSet(t.kids[v + 1]) = {w \in Nodes(g) \ {0} : idom[w] = v}
FrOk(g, dom, fr) == \A v \in Nodes(g) : fr[v + 1] = (Frontier(g, dom, v) = {})
RevOk(h, rev) == \A v \in Nodes(h) :
                /\ SortedW(rev[v + 1])
                /\ \A u \in Nodes(h) : Count(rev[v + 1], u) = Mult(h, u, v)
                /\ ToSet(rev[v + 1]) \subseteq Nodes(h)
Ok(e) ==
  /\ e.ok = Valid(e.g)
  /\ e.ok =>
       LET g == e.g
           dom == DomOf(g)
           idom == IdomOf(g, dom)
           G == ToSet(e.glob)
           h == e.ext.deps
       IN /\ e.deps = g /\ e.n = N(g)
          /\ RevOk(g, e.rev)
          /\ TreeOk(g, dom, idom, e.tree)
          /\ FrOk(g, dom, e.fr)
          /\ e.ext.ok /\ Len(h) = N(g)
          /\ \A v \in Nodes(g) :
               /\ ToSet(h[v + 1]) \subseteq Nodes(g)
               /\ \A w \in Nodes(g) : Mult(h, v, w) = ExtMult(g, idom, G, v, w)
          /\ RevOk(h, e.ext.rev)
          /\ TreeOk(g, dom, idom, e.ext.tree)
          /\ FrOk(h, DomOf(h), e.ext.fr)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
