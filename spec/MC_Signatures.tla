---------------------------- MODULE MC_Signatures ----------------------------
EXTENDS Signatures
CONSTANT N
VARIABLES g, n, kw
Names == {<<120>>, <<121>>, <<122, 49>>, <<49>>}
Params == {[n |-> x, d |-> d, v |-> v] : x \in Names, d \in {0, 101}, v \in BOOLEAN}
Lists == UNION {[1..k -> Params] : k \in 0..N}
Kws == {q \in UNION {[1..k -> {<<120>>, <<121>>, <<122, 49>>, <<119>>}] : k \in 0..3} : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
Init == /\ g \in {[params |-> p, auxn |-> a, auxo |-> o] : p \in Lists, a \in {<<>>, <<112>>, <<58>>}, o \in {<<>>, <<113, 58, 124>>}}
        /\ Valid(g)
        /\ n \in 0..4 /\ kw \in Kws
Next == UNCHANGED <<g, n, kw>>
Spec == Init /\ [][Next]_<<g, n, kw>>
\* The textual form carries everything.
RoundTrip == LET q == Parse(Text(g), DefaultsOf(g)) IN q.ok /\ q.g = g
\* A bound call: every argument is used exactly once, defaults only for parameters without an argument.
Uses == BindOk(g, n, kw) =>
          LET r == Bind(g, n, kw)  total == n + Len(kw)
          IN /\ \A a \in 1..total : Cardinality({i \in DOMAIN r : r[i].a = a}) = 1
             /\ \A i \in DOMAIN r : (r[i].a = 0) = (r[i].d # 0)
             /\ DepsOk(g, Len(r))
             /\ ~HasVar(g) => Len(r) = Len(g.params)
             /\ \A k \in 1..Len(kw) : g.params[CHOOSE i \in DOMAIN r : r[i].a = n + k].n = kw[k]
\* Exactly the calls for which such an assignment exists are accepted.
Exact == LET p == Fixed(g)  m == Len(p)
             free == IF n < m THEN (n + 1)..m ELSE {}
             possible == /\ (n > m => HasVar(g))
                         /\ \E f \in [1..Len(kw) -> 0..m] :
                              /\ \A k \in 1..Len(kw) : f[k] \in free /\ p[f[k]].n = kw[k]
                              /\ \A i \in free : p[i].d # 0 \/ \E k \in 1..Len(kw) : f[k] = i
         IN BindOk(g, n, kw) = possible
=============================================================================
