------------------------------ MODULE Trace_Eval ------------------------------
EXTENDS TraceBase, Eval
Outs(e) == {e.root} \cup {e.side[j] : j \in 1..Len(e.side)}
(* A program whose nodes each have one use short-circuits for sure, unless the   *)
(* failing part is computed ahead.  Equal nodes are one node of the program: with *)
(* a single node that can fail, all that holds it is different from the rest.     *)
Tree(e) ==
  LET s == Reach(e.nodes, Len(e.nodes), Outs(e)) IN
  /\ Len(e.side) = 0
  /\ Cardinality({i \in s : e.nodes[i].k = "inv"}) = 1
  /\ \A i \in s : /\ e.opt \/ e.nodes[i].k # "cwhere"
                  /\ e.nodes[i].k \in {"leaf", "qleaf", "lit"} \/ Uses(e.nodes, s, i) <= 1
  /\ \A i \in s : e.nodes[i].k # "inv" \/ e.nodes[i].a[1] \notin Fixed(e.nodes, Len(e.nodes))
Row(e, r) ==
  IF e.via = "invoke" THEN r
  ELSE ((r - 1) \div ((IF e.over THEN 1 ELSE 2) * (IF e.via = "twice" THEN 2 ELSE 1))) + 1
Runs(e) == Len(e.rows) * (IF e.via = "invoke" THEN 1 ELSE (IF e.over THEN 1 ELSE 2) * (IF e.via = "twice" THEN 2 ELSE 1))
Strict(e, row) == Vals(e.nodes, Len(e.nodes), row, FALSE)
Lazy(e, row) == Vals(e.nodes, Len(e.nodes), row, TRUE)
Need(e, vs) == \E i \in Outs(e) : vs[i] = Err
Any(e, vs) == \E i \in Reach(e.nodes, Len(e.nodes), Outs(e)) : vs[i] = Err
RunOk(e, r) ==
  LET row == e.rows[Row(e, r)]
      lz == Lazy(e, row)
      run == e.runs[r] IN
  /\ IF Need(e, lz) THEN ~run.ok
     ELSE \/ run.ok
          \/ Any(e, Strict(e, row)) /\ ~(Tree(e))
  /\ run.ok => /\ run.out = lz[e.root]
               /\ e.via = "invoke" \/ (/\ Len(run.side) = Len(e.side)
                                       /\ \A j \in 1..Len(e.side) : run.side[j] = lz[e.side[j]])
  /\ run.ins = row
Ok(e) ==
  IF e.compiled
  THEN Len(e.runs) = Runs(e) /\ \A r \in 1..Len(e.runs) : RunOk(e, r)
  ELSE (* something that can be computed ahead fails: it depends on no input, or      *)
       (* the optimizer finds that it does not                                          *)
       \E i \in Reach(e.nodes, Len(e.nodes), Outs(e)) :
         /\ e.opt \/ i \in Fixed(e.nodes, Len(e.nodes))
         /\ \A q \in 1..Len(e.rows) : Strict(e, e.rows[q])[i] = Err
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
