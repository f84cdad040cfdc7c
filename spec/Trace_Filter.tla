---------------------------- MODULE Trace_Filter -----------------------------
EXTENDS TraceBase, Filter

\* What is seen of an accessor: io is the set of input types it may be for.
Fits(want, got) ==
  /\ got.n = want.n /\ got.p = want.p /\ got.ty = want.ty
  /\ got.lam = want.lam
  /\ want.p # <<>> => want.io \in Range1(got.io)
\* Bags matched greedily: equal accessors are interchangeable.
RECURSIVE FitAll(_, _)
FitAll(want, got) ==
  IF want = <<>> THEN got = <<>>
  ELSE LET J == {j \in DOMAIN got : Fits(want[1], got[j])} IN
       /\ J # {}
       /\ LET j == CHOOSE j \in J : TRUE IN
          FitAll(Tail(want), SubSeq(got, 1, j - 1) \o SubSeq(got, j + 1, Len(got)))

OkOut(d, cfg, o) ==
  LET w == Denote(d, cfg) IN
  CASE w.st = "no" -> o.err # ""
    [] w.st = "yes" -> o.err = "" /\ FitAll(w.bag, o.accs)
    [] w.st = "any" -> o.err # "" \/ FitAll(w.bag, o.accs)

\* Directly, through the build rules, and once more from the same generator.
OkGen(e) ==
  /\ OkOut(e.tree, e.cfg, e.direct)
  /\ e.bzl => /\ OkOut(e.tree, e.cfg, e.built)
              /\ Has(e.built, "data") => /\ Range1(e.built.data) = DataOf(e.tree)
                                         /\ DepsOf(e.tree) \subseteq Range1(e.built.deps)
  /\ e.again

OkParse(e) ==
  LET p == Split(e.t, Cp("~~")) IN
  IF Len(p) # 4 THEN e.err # "" ELSE e.err = "" /\ e.v = p
OkImport(e) == IF e.want = <<>> THEN e.err # "" ELSE e.err = "" /\ e.full = e.want
Ok(e) == CASE e.op = "gen" -> OkGen(e)
           [] e.op = "wparse" -> OkParse(e)
           [] e.op = "import" -> OkImport(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
==============================================================================
