-------------------------------- MODULE Init --------------------------------
(* Initializers [name, deps, rdeps, k] come in batches; names are sequences  *)
(* (empty = anonymous), names starting with "@phony" only order others.         *)
(* Items of a batch are identified by their position; k is what the item does:  *)
(* "void", "ok", "fail" (returns an error) or "none" (nothing to observe).      *)
EXTENDS Integers, Sequences, FiniteSets

ToSet(s) == {s[i] : i \in 1..Len(s)}
Phony(n) == Len(n) >= 6 /\ SubSeq(n, 1, 6) = <<64, 112, 104, 111, 110, 121>>  \* "@phony"

Ids(B) == 1..Len(B)
ByName(B, n) == {i \in Ids(B) : B[i].name = n /\ n # <<>>}
\* Completed initializers of earlier batches satisfy a dependency at once.
Deps(B, done, i) == ToSet(B[i].deps) \ done
Rdeps(B, i) == ToSet(B[i].rdeps)

\* Vertices of the ordering: items, and names that no item of the batch bears.
Holder(B, n) == IF ByName(B, n) = {} THEN <<"n", n>> ELSE <<"i", CHOOSE i \in ByName(B, n) : TRUE>>
Item(i) == <<"i", i>>
\* <<u, v>>: u comes before v.
Before(B, done) ==
  UNION {{<<Holder(B, n), Item(i)>> : n \in Deps(B, done, i)} : i \in Ids(B)}
  \cup UNION {{<<Item(i), Holder(B, n)>> : n \in Rdeps(B, i)} : i \in Ids(B)}

RECURSIVE Up(_, _)
Up(E, S) == LET T == S \cup {e[1] : e \in {x \in E : x[2] \in S}} IN IF T = S THEN S ELSE Up(E, T)
\* All vertices that must come before v (v itself only when on a cycle).
AllBefore(E, v) == Up(E, {e[1] : e \in {x \in E : x[2] = v}})

Duplicate(B, done) == \E i \in Ids(B) : B[i].name # <<>> /\ (B[i].name \in done \/ Cardinality(ByName(B, B[i].name)) > 1)
Misnamed(B) == \E i \in Ids(B) : Phony(B[i].name)
TooLate(B, done) == \E i \in Ids(B) : Rdeps(B, i) \cap done # {}
Missing(B, done) == \E i \in Ids(B) : \E n \in Deps(B, done, i) : ~Phony(n) /\ ByName(B, n) = {}
Cyclic(B, done) == LET E == Before(B, done) IN \E i \in Ids(B) : Item(i) \in AllBefore(E, Item(i))
Bad(B, done) == Misnamed(B) \/ Duplicate(B, done) \/ TooLate(B, done) \/ Missing(B, done) \/ Cyclic(B, done)

\* ran: positions in the order of execution.  Whatever ran, ran once and after
\* everything that is declared to come before it.
InOrder(B, done, ran) ==
  LET E == Before(B, done) IN
  /\ Cardinality(ToSet(ran)) = Len(ran)
  /\ ToSet(ran) \subseteq {i \in Ids(B) : B[i].k # "none"}
  /\ \A k \in 1..Len(ran) :
       LET A == AllBefore(E, Item(ran[k]))
           S == {ran[j] : j \in 1..(k - 1)}
       IN \A v \in A : IF v[1] = "i" THEN v[2] \in S \/ B[v[2]].k = "none" ELSE Phony(v[2])
\* Duplicates have no well-defined order; they must not both run.
DupsOnce(B, ran) == \A i, j \in 1..Len(ran) : i # j => B[ran[i]].name = <<>> \/ B[ran[i]].name # B[ran[j]].name
RanOk(B, done, ran, ok) ==
  LET F == {i \in Ids(B) : B[i].k = "fail"} IN
  IF Bad(B, done)
  THEN /\ ~ok
       /\ IF Duplicate(B, done) \/ TooLate(B, done) \/ Misnamed(B)
          THEN /\ DupsOnce(B, ran)
               /\ \A i \in ToSet(ran) : B[i].name \notin done /\ Rdeps(B, i) \cap done = {} /\ ~Phony(B[i].name)
          ELSE InOrder(B, done, ran)
       /\ \A k \in 1..(Len(ran) - 1) : ran[k] \notin F
  ELSE /\ InOrder(B, done, ran)
       /\ ok = (F = {})
       /\ ok => ToSet(ran) = {i \in Ids(B) : B[i].k # "none"}
       \* nothing runs after a failure
       /\ ~ok => Len(ran) > 0 /\ ran[Len(ran)] \in F /\ \A k \in 1..(Len(ran) - 1) : ran[k] \notin F

\* Names known to be complete after a successful run.
DoneAfter(B, done) == done \cup ({B[i].name : i \in Ids(B)} \ {<<>>})
\* All names distinct: the order is a function of the set of initializers.
Named(B) == \A i, j \in Ids(B) : B[i].name # <<>> /\ (i # j => B[i].name # B[j].name)
=============================================================================
