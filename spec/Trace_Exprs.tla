---------------------------- MODULE Trace_Exprs ----------------------------
EXTENDS TraceBase, Exprs
M == 100003
Same(x, y) == x.ok = y.ok /\ (y.ok => x.t = y.t)
Built(e, B) == \A i \in 1..Len(B) : e.ok[i] = B[i].ok /\ e.cls[i] = B[i].cls
Sorted(s, X) == Len(s) = Cardinality(X) /\ {s[i] : i \in 1..Len(s)} = X
Walk(e, B, c) ==
  LET base == [k \in 1..Len(B) |-> k]
  IN /\ ChildrenFirst(B, c, e.po)
     /\ \A i \in 1..Len(e.po) : [j \in 1..Len(e.pod[i]) |-> e.po[e.pod[i][j] + 1]] = Deps(B, e.po[i])
     /\ e.idx /\ e.pk /\ e.lk
     /\ ChildrenFirst(B, c, e.vo)
     /\ ChildrenFirst(B, c, e.calls)
     /\ Len(e.pp) = 2 * Cardinality(Reach(B, c)) /\ Brackets(B, e.pp, 1, <<>>, {})
     /\ Sorted(e.leaves, B[c].lv) /\ Sorted(e.phs, B[c].ph)
     /\ e.trav = Up(B, 1, <<>>, base, M)[c]
Rewrite(e, B, c) ==
  LET t == Tree(B, c)
      R == [i \in 1..Len(e.rules) |-> <<Tree(B, B[e.rules[i][1]].cls), Tree(B, B[e.rules[i][2]].cls)>>]
      RL == SelectSeq(R, LAMBDA q : q[1][1] = "L")
      RP == SelectSeq(R, LAMBDA q : q[1][1] = "P")
      n == Cardinality(Reach(B, c))
      phs == {<<"P", p>> : p \in B[c].ph}
      tr == T(R, t)
  IN /\ e.term = t
     /\ Same(e.tr, Good(tr)) /\ e.tr2 = e.tr /\ e.trn = n
     /\ e.same = (tr = t)
     /\ Same(e.dt, IF R = <<>> THEN Good(t) ELSE D(R, B, t, {}))
     /\ Same(e.sf, Good(S(R, t)))
     /\ Same(e.sl, Good(S(RL, t)))
     /\ Same(e.sp, Good(S(RP, t)))
     /\ Same(e.spm, IF \A p \in phs : \E i \in 1..Len(RP) : RP[i][1] = p THEN Good(S(RP, t)) ELSE Fail)
     /\ Same(e.low1, Good(Lower(B, t)))
     /\ Same(e.low, D(<<>>, B, t, {}))
     /\ e.failed = (e.fail < n)
GraphOk(e) ==
  LET B == Graph(e.items)
      c == IF e.root = 0 THEN 0 ELSE B[e.root].cls
      rules == \A i \in 1..Len(e.rules) : B[e.rules[i][1]].ok /\ ~B[e.rules[i][1]].op /\ B[e.rules[i][2]].ok /\ ~B[e.rules[i][2]].op
  IN /\ Built(e, B)
     /\ IF c = 0 \/ B[c].op THEN ~e.run ELSE Walk(e, B, c) /\ (IF rules THEN e.run /\ Rewrite(e, B, c) ELSE ~e.run)

\* Large graphs: one leaf is replaced by a new one, everything else stays and
\* stays shared (at most one node per distinct node, and those given).
BM == 19999999
BigOk(e) ==
  LET B == Graph(e.items)
      c == B[e.root].cls  from == B[e.from].cls  to == B[e.to].cls
      R == Reach(B, c)
      base(f(_)) == [k \in 1..Len(B) |-> IF B[k].key.t = "op" THEN 31 * B[k].key.d[1] ELSE f(k)]
      v0 == Up(B, 1, <<>>, base(LAMBDA k : k), BM)[c]
      v1 == Up(B, 1, <<>>, base(LAMBDA k : IF k = from THEN to ELSE k), BM)[c]
  IN /\ Built(e, B)
     /\ Len(e.res) = 5
     /\ \A i \in 1..5 : LET q == e.res[i]
                        IN /\ q.ok
                           /\ q.fps = Cardinality(R)
                           /\ q.ptrs <= (IF i = 1 THEN Len(e.items) ELSE Len(e.items) + Cardinality(R))
                           /\ q.v = (IF i = 1 THEN v0 ELSE v1)
\* Long chains: n nodes on top of one leaf.
DeepOk(e) == e.size = e.n + 1 /\ e.equal /\ e.differ /\ e.tr = e.n + 1 /\ e.dt = e.n + 1 /\ e.trsame /\ e.leaf = <<"b">>
Ok(e) ==
  CASE e.op = "graph" -> GraphOk(e)
    [] e.op = "big" -> BigOk(e)
    [] e.op = "deep" -> DeepOk(e)
    [] OTHER -> FALSE
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
