----------------------------- MODULE Trace_Arrays -----------------------------
EXTENDS TraceSession, Arrays
vars == <<b, l, avars>>
\* After every step: no other array changed, and register i reads back as
\* specified in every way it can be read.
Peers(i) == IF i <= 4 THEN 1..4 ELSE 5..6
Agree ==
  /\ Ev.chg = <<>> /\ Ev.wf
  /\ Ev.vals = arr'[Ev.i] /\ Ev.fe = arr'[Ev.i] /\ Ev.fer = arr'[Ev.i] /\ Ev.it = arr'[Ev.i]
  /\ TRUE = (Ev.fp = LET o == PresentIds(arr'[Ev.i]) IN [p \in 1..Len(o) |-> <<o[p], arr'[Ev.i][o[p] + 1]>>])
  /\ Ev.fpr = Ev.fp
  /\ Ev.cnt = Cardinality(Present(arr'[Ev.i]))
  /\ TRUE = (\A j \in Peers(Ev.i) : Ev.eq[j] = (arr'[Ev.i] = arr'[j]) /\ (Ev.fg[j] => arr'[Ev.i] = arr'[j])
                                   /\ (Ev.i > 4 => Ev.fg[j] = Ev.eq[j]))
Put(s) == Set(Ev.i, s) /\ Agree
A(j) == arr[j]
Args == [p \in 1..Len(Ev.js) |-> arr[Ev.js[p]]]
TNext ==
  \/ Is("begin") /\ Begin(Ev.kind)
  \/ Is("const") /\ Put(ConstOf(Ev.n, Ev.v))
  \/ Is("lit") /\ Put(Ev.v)
  \/ Is("create") /\ Put(FromIds(Ev.n, Ev.ids, Ev.vs))
  \/ Is("sparse") /\ Put(FromIds(Ev.n, Ev.ids, Ev.vs))
  \/ Is("build") /\ Put(Built(Ev.max, Ev.steps, Ev.n))
  \/ Is("with") /\ Put(WithIds(A(Ev.j), In(Ev.ids), Ev.m))
  \/ Is("same") /\ Put(A(Ev.j)) /\ (TRUE = (Ev.how \in {"owned", "unowned", "copy"} => Ev.fgsrc))
  \/ Is("slice") /\ Put(Sub(A(Ev.j), Ev.off, Ev.n))
  \/ Is("pw") /\ IF PwOk(Ev.f, Args) THEN Ev.ok /\ Put(Pointwise(Ev.f, Args)) ELSE ~Ev.ok /\ Same
  \/ Is("mask") /\ Ev.res = Mask(A(Ev.j)) /\ Same
  \/ Is("ends") /\ Ev.first = Firsts(A(Ev.j), Ev.n) /\ Ev.last = Lasts(A(Ev.j), Ev.n) /\ Same
  \/ Is("subset") /\ Ev.res = Subset(A(Ev.j), Ev.ids) /\ Same
  \/ Is("buffer") /\ Ev.ok = (M \notin In(A(Ev.j))) /\ (TRUE = (Ev.ok => Ev.res = A(Ev.j))) /\ Same
  \/ Is("iter") /\ Ev.res = ValidRows(A(Ev.j), A(Ev.k)) /\ Same
  \/ Is("rows") /\ Ev.res = Rows(A(Ev.j), A(Ev.k), Ev.from, Ev.to)
       /\ Ev.upper >= Cardinality(Present(A(Ev.j))) /\ Ev.upper <= Len(A(Ev.j)) /\ Same
  \* combining the id filters of two arrays: u, n, t are the ids of the merge, of
  \* the bounding intersection and the triples of the exact intersection
  \/ Is("ids") /\ (In(Ev.ij) \cup In(Ev.ik)) \subseteq In(Ev.u)
       /\ (In(Ev.ij) \cap In(Ev.ik)) \subseteq In(Ev.x)
       /\ (In(Ev.x) \in {In(Ev.ij), In(Ev.ik)})
       /\ (TRUE = (Ev.part => Ev.t = [p \in 1..Cardinality(In(Ev.ij) \cap In(Ev.ik)) |->
                 LET id == Ordered(In(Ev.ij) \cap In(Ev.ik))[p]
                 IN <<id, Cardinality({y \in In(Ev.ij) : y < id}), Cardinality({y \in In(Ev.ik) : y < id})>>]))
       /\ Same
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ AInit) /\ [][TNext]_vars
===============================================================================
