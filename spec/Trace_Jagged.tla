----------------------------- MODULE Trace_Jagged -----------------------------
EXTENDS TraceSession, Jagged, EdgeEvents, TLC
vars == <<b, l, shape>>

RECURSIVE Listed(_)
Listed(v) == IF v = << >> THEN "" ELSE IF Len(v) = 1 THEN ToString(v[1]) ELSE ToString(v[1]) \o ", " \o Listed(Tail(v))
(* A dimension is printed as its sizes, or one number if they are all the same. *)
DimRepr(d) == IF d = << >> THEN "[]"
              ELSE IF \A k \in 1..Len(d) : d[k] = d[1] THEN ToString(d[1])
              ELSE IF Len(d) <= 6 THEN "[" \o Listed(d) \o "]"
              ELSE "[" \o Listed(SubSeq(d, 1, 3)) \o ", ..., " \o Listed(SubSeq(d, Len(d) - 2, Len(d))) \o "]"
RECURSIVE Reprs(_)
Reprs(sh) == IF sh = << >> THEN "" ELSE IF Len(sh) = 1 THEN DimRepr(sh[1]) ELSE DimRepr(sh[1]) \o ", " \o Reprs(Tail(sh))
Repr(sh) == (IF Cur.ev[1].arr = "d" THEN "JaggedShape(" ELSE "JaggedArrayShape(") \o Reprs(sh) \o ")"
Totals(sh) == [k \in 1..Len(sh) |-> Sum(sh[k])]

Agree == LET s == shape'[Ev.i] IN
  /\ Ev.chg = << >>
  /\ Len(Ev.dims) = Len(s)
  /\ TRUE = (\A k \in 1..Len(s) : Shown(Ev.dims[k], DimEdge(s, k)))
  /\ Ev.rank = Len(s) /\ Ev.oprank = Len(s)
  /\ Ev.size = JSize(s) /\ Ev.opsize = JSize(s)
  /\ Ev.repr = Repr(s)
  /\ TRUE = (\A j \in 1..4 : LET t == shape'[j] IN
       /\ Ev.eq[j] = (s = t) /\ Ev.opeq[j] = (s = t)
       /\ (Ev.fast[j][1] => s = t)
       /\ (Ev.fast[j][2] => s # t)
       /\ Ev.fast[j][3] = (Totals(s) = Totals(t))
       /\ Ev.fast[j][4]
       /\ (Ev.fg[j] => s = t)
       /\ Ev.bc[j] = IsPrefixOf(s, t) /\ Ev.opbc[j] = IsPrefixOf(s, t)
       /\ Ev.cb[j] = IsPrefixOf(t, s)
       /\ (IsPrefixOf(s, t) => Shown(Ev.bce[j], Broadcast(s, t))))
Set(sh) == IF sh = NoShape THEN ~Ev.ok /\ Keep ELSE Ev.ok /\ Put(Ev.i, sh) /\ Agree
Do(sh) == Put(Ev.i, sh) /\ Agree
At(j) == shape[j]
Given == [k \in 1..Len(Ev.es) |-> Denoted(Ev.es[k])]
BadEdge == \E k \in 1..Len(Ev.es) : Given[k] = None
Joined == [k \in 1..Len(Ev.js) |-> shape[Ev.js[k]]]
Arrays == [k \in 1..Len(Ev.args) |-> Ev.args[k].v]
ArraysFit == Len(Ev.args) = Len(Ev.js) /\ \A k \in 1..Len(Ev.js) : Len(Ev.args[k].v) = JSize(Joined[k])
TNext ==
  \/ Is("begin") /\ Keep
  \/ Is("edges") /\ IF BadEdge THEN Has(Ev, "badedge") /\ Keep ELSE ~Has(Ev, "badedge") /\ Set(OfEdges(Given))
  \/ Is("add") /\ IF BadEdge THEN Has(Ev, "badedge") /\ Keep ELSE ~Has(Ev, "badedge") /\ Set(AddDims(At(Ev.j), Given))
  \/ Is("flat") /\ Do(Flat(Ev.n))
  \/ Is("copy") /\ Do(At(Ev.j)) /\ Ev.fg[Ev.j]
  \/ Is("remove") /\ Do(Outer(At(Ev.j), Clamp(Ev.from, Len(At(Ev.j)))))
  \/ Is("flatten") /\ Do(LET n == Len(At(Ev.j))
                             f == Clamp(Ev.from, n)
                             t == Clamp(Ev.to, n)
                         IN Flatten(At(Ev.j), f, IF t < f THEN f ELSE t))
  \/ Is("edgeat") /\ Keep /\ LET s == At(Ev.j)
                                 d == IF Ev.dim < 0 THEN Ev.dim + Len(s) ELSE Ev.dim
                             IN EdgeIs(Ev.edge, IF d < 0 \/ d >= Len(s) THEN None ELSE DimEdge(s, d + 1))
  \/ Is("join") /\ LET good == CanJoin(Joined, Ev.d, Ev.stack)
                       fit == ~Has(Ev, "args") \/ ArraysFit
                   IN IF good /\ fit
                      THEN /\ Set(JoinShape(Joined, Ev.d, Ev.stack))
                           /\ Has(Ev, "args") => TRUE = (Ev.res = JoinVals(Joined, Arrays, Ev.d, Ev.stack))
                      ELSE ~Ev.ok /\ Keep
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ JInit) /\ [][TNext]_vars
===============================================================================
