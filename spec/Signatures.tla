----------------------------- MODULE Signatures -----------------------------
(* Operator signatures: parameters [n, d, v] (name, default value or 0,         *)
(* variadic), a policy name and its options.  Text is a sequence of character   *)
(* codes.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
Digit(c) == c >= 48 /\ c <= 57
Identifier(s) == s # <<>> /\ Letter(s[1]) /\ \A i \in 1..Len(s) : Letter(s[i]) \/ Digit(s[i])
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ Space(s[1]) THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
Positions(s, c) == {i \in 1..Len(s) : s[i] = c}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Before(s, c) == IF Positions(s, c) = {} THEN s ELSE SubSeq(s, 1, First(Positions(s, c)) - 1)
After(s, c) == IF Positions(s, c) = {} THEN <<>> ELSE SubSeq(s, First(Positions(s, c)) + 1, Len(s))
RECURSIVE Split(_)
Split(s) == IF Positions(s, 44) = {} THEN <<s>> ELSE <<Before(s, 44)>> \o Split(After(s, 44))
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<44, 32>> \o Join(Tail(ss))

\* ---------------------------------------------------------------- validity
Valid(g) ==
  LET p == g.params  n == Len(p)
  IN /\ \A i \in 1..n : Identifier(p[i].n)
     /\ \A i, j \in 1..n : p[i].n = p[j].n => i = j
     /\ \A i \in 1..n : p[i].v => i = n /\ p[i].d = 0
     /\ \A i \in 1..n : p[i].d # 0 => \A j \in i..n : p[j].v \/ p[j].d # 0
     /\ Positions(g.auxn, 58) = {}

\* ------------------------------------------------------------ textual form
Text(g) ==
  LET one(p) == (IF p.v THEN <<42>> ELSE <<>>) \o p.n \o (IF p.d # 0 THEN <<61>> ELSE <<>>)
      aux == g.auxn \o (IF g.auxo = <<>> THEN <<>> ELSE <<58>> \o g.auxo)
  IN Join([i \in 1..Len(g.params) |-> one(g.params[i])]) \o (IF aux = <<>> THEN <<>> ELSE <<124>> \o aux)
Aux(g) == g.auxn \o (IF g.auxo = <<>> THEN <<>> ELSE <<58>> \o g.auxo)
\* One parameter of the text: name, variadic, has a default.
Piece(raw) ==
  LET s == Strip(raw)
      v == s # <<>> /\ s[1] = 42
      t == IF v THEN LStrip(Tail(s)) ELSE s
      d == t # <<>> /\ t[Len(t)] = 61
  IN [v |-> v, d |-> d, n |-> IF d THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t]
\* ds: the default values in order; exactly as many as there are '='.
Parse(text, ds) ==
  LET left == Strip(Before(text, 124))
      aux == LStrip(After(text, 124))
      ps == IF left = <<>> THEN <<>> ELSE LET raw == Split(left) IN [i \in 1..Len(raw) |-> Piece(raw[i])]
      k(i) == Cardinality({j \in 1..i : ps[j].d})
      g == [params |-> [i \in 1..Len(ps) |-> [n |-> ps[i].n, v |-> ps[i].v,
                                              d |-> IF ps[i].d /\ k(i) <= Len(ds) THEN ds[k(i)] ELSE 0]],
            auxn |-> Strip(Before(aux, 58)), auxo |-> Strip(After(aux, 58))]
  IN [ok |-> k(Len(ps)) = Len(ds) /\ Valid(g), g |-> g]
DefaultsOf(g) == LET q == SelectSeq(g.params, LAMBDA p : p.d # 0) IN [i \in 1..Len(q) |-> q[i].d]
\* The policy texts the textual form can carry.
Plain(g) == Strip(g.auxn) = g.auxn /\ Strip(g.auxo) = g.auxo

\* ----------------------------------------------------------------- binding
HasVar(g) == g.params # <<>> /\ g.params[Len(g.params)].v
Fixed(g) == IF HasVar(g) THEN SubSeq(g.params, 1, Len(g.params) - 1) ELSE g.params
DepsOk(g, k) == LET m == Len(Fixed(g)) IN IF HasVar(g) THEN k >= m ELSE k = m
\* n positional arguments 1..n and keyword arguments n + 1.. named kw.
BindOk(g, n, kw) ==
  LET p == Fixed(g)  m == Len(p)
      at(k) == {i \in 1..m : p[i].n = kw[k]}
  IN /\ n <= m \/ HasVar(g)
     /\ \A k \in 1..Len(kw) : \E i \in at(k) : i > n
     /\ \A i \in 1..m : i > n => p[i].d # 0 \/ \E k \in 1..Len(kw) : kw[k] = p[i].n
Bind(g, n, kw) ==
  LET p == Fixed(g)  m == Len(p)
      one(i) == IF i <= n THEN [a |-> i, d |-> 0]
                ELSE IF \E k \in 1..Len(kw) : kw[k] = p[i].n
                     THEN [a |-> n + CHOOSE k \in 1..Len(kw) : kw[k] = p[i].n, d |-> 0]
                     ELSE [a |-> 0, d |-> p[i].d]
  IN [i \in 1..(IF n > m THEN n ELSE m) |-> IF i <= m THEN one(i) ELSE [a |-> i, d |-> 0]]
=============================================================================
