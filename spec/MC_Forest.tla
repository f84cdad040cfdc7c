----------------------------- MODULE MC_Forest -----------------------------
(* All trees of up to MaxSplits nodes, and pairs of them with tags.            *)
EXTENDS Forest, TLC
CONSTANTS MaxSplits, Pool
Bounds == {-33, 0, 3, 33}
Wide == {[k |-> "iv", in |-> 0, a |-> a, b |-> b] : a \in Bounds, b \in Bounds}
        \cup {[k |-> "iset", in |-> 1, vs |-> vs, miss |-> m] : vs \in {<<>>, <<0>>, <<0, 1>>}, m \in BOOLEAN}
        \cup {[k |-> "fset", in |-> 0, vs |-> <<0, 3>>, miss |-> m] : m \in BOOLEAN}
Few == {[k |-> "iv", in |-> 0, a |-> -33, b |-> 0], [k |-> "iv", in |-> 0, a |-> 0, b |-> 3], [k |-> "iset", in |-> 1, vs |-> <<0>>, miss |-> TRUE]}
Conds == IF Pool = "wide" THEN Wide ELSE Few
F == {Missing, NaN, NegZero, -33, -3, 0, 1, 3, 4, 33}
I == {Missing, 0, 1, 2}
Rows == {<<f, i>> : f \in F, i \in I}
Ids(n) == (1..(n - 1)) \cup {-i : i \in 1..(n + 1)}
Slots(n) == {<<i, s>> : i \in 1..n, s \in {"f", "t"}}
\* children later than their parents, so that every assignment is a tree
Shapes(n) == {g \in [Slots(n) -> Ids(n)] : (\A x, y \in Slots(n) : x # y => g[x] # g[y]) /\ \A x \in Slots(n) : g[x] > 0 => g[x] >= x[1]}
VARIABLES t, step
vars == <<t, step>>
Init == /\ step = 0
        /\ \E n \in 0..MaxSplits : \E g \in Shapes(n), cs \in [1..n -> Conds] :
             t = [nodes |-> [i \in 1..n |-> [f |-> g[<<i, "f">>], t |-> g[<<i, "t">>], c |-> cs[i]]],
                  adj |-> [i \in 1..(n + 1) |-> i * i], w |-> 1, step |-> n, sub |-> n % 2]
Next == step = 0 /\ step' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
OneInput == \A n \in Ran(t.nodes) : n.c.in = 0
Groups == {<<All>>, <<[All EXCEPT !.to = 1], [All EXCEPT !.from = 1]>>, <<[All EXCEPT !.subs = <<0>>], [All EXCEPT !.subs = <<1, 2>>]>>}
Other == [nodes |-> <<>>, adj |-> <<5>>, w |-> -2, step |-> 0, sub |-> 1]
Inv ==
  /\ Valid(<<t>>)
  /\ \A r \in Rows : ByMasks(t, r) = Value(t, r)
  /\ OneInput => \A r \in Rows :
       /\ \A x \in F \ {Missing, NaN} : r[1] \notin {Missing, NaN} /\ SamePiece(t, r[1], x) => Value(t, r) = Value(t, <<x, r[2]>>)
       /\ (\A n \in Ran(t.nodes) : n.c.k = "iv") => Value(t, <<NaN, r[2]>>) = Value(t, <<Missing, r[2]>>)
  /\ \A gs \in Groups, r \in Rows : Disjoint(<<t, Other>>, gs) /\
       LET part(i) == Eval(<<t, Other>>, gs[i], r) IN
       Eval(<<t, Other>>, All, r) = IF Len(gs) = 1 THEN part(1) ELSE part(1) + part(2)
  /\ ~Disjoint(<<t>>, <<All, All>>)
============================================================================
