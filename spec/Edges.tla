-------------------------------- MODULE Edges --------------------------------
(* An edge relates the rows of a child index to the rows of a parent index:   *)
(* it denotes a parent size and, for each child row, the parent row it belongs *)
(* to or M.  It is kept either as a mapping or as split points; everything     *)
(* computed over an edge depends on the relation alone.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

M == -99
Opt(S, x) == IF x \in S THEN x ELSE M
Full(v) == \A k \in 1..Len(v) : v[k] # M
Sorted(v) == \A k \in 2..Len(v) : v[k - 1] <= v[k]
Sum(v) == FoldLeft(LAMBDA acc, x : acc + x, 0, v)
Prefix(v) == [k \in 1..Len(v) + 1 |-> Sum(SubSeq(v, 1, k - 1))]

ValidSplit(v) == /\ Len(v) > 0
                 /\ Full(v)
                 /\ v[1] = 0
                 /\ Sorted(v)
ValidMap(v, p) == p >= 0 /\ \A k \in 1..Len(v) : v[k] = M \/ (v[k] >= 0 /\ v[k] < p)

MapOfSplit(v) == [c \in 1..v[Len(v)] |-> Cardinality({q \in 1..Len(v) : v[q] < c}) - 1]
SplitOfMap(m, p) == [q \in 1..p + 1 |-> Cardinality({c \in 1..Len(m) : m[c] < q - 1})]
Monotone(m) == Full(m) /\ Sorted(m)

SplitEdge(v) == [form |-> "split", parent |-> Len(v) - 1, map |-> MapOfSplit(v)]
MapEdge(v, p) == [form |-> "map", parent |-> p, map |-> v]
Uniform(p, g) == SplitEdge([q \in 1..p + 1 |-> (q - 1) * g])
None == [form |-> "none", parent |-> 0, map |-> << >>]
Child(x) == Len(x.map)
Values(x) == IF x.form = "split" THEN SplitOfMap(x.map, x.parent) ELSE x.map
AsMap(x) == [x EXCEPT !.form = "map"]
AsSplit(x) == IF Monotone(x.map) THEN [x EXCEPT !.form = "split"] ELSE None
Same(x, y) == x.parent = y.parent /\ x.map = y.map

RowsOf(x, p) == SelectSeq([c \in 1..Child(x) |-> c], LAMBDA c : x.map[c] = p - 1)
GroupSize(x, p) == Cardinality({c \in 1..Child(x) : x.map[c] = p - 1})
Sizes(x) == [p \in 1..x.parent |-> GroupSize(x, p)]

(* Composition: follow the child's parent through all the edges. *)
Then(x, y) == [form |-> IF x.form = "split" /\ y.form = "split" THEN "split" ELSE "map", parent |-> x.parent,
               map |-> [c \in 1..Child(y) |-> IF y.map[c] = M THEN M ELSE x.map[y.map[c] + 1]]]
Chained(es) == Len(es) > 0 /\ \A k \in 2..Len(es) : Child(es[k - 1]) = es[k].parent
Compose(es) == FoldLeft(LAMBDA acc, y : Then(acc, y), es[1], SubSeq(es, 2, Len(es)))

Expand(x, v) == [c \in 1..Child(x) |-> IF x.map[c] = M THEN M ELSE v[x.map[c] + 1]]

(* A group operation sees, for each parent row that has all its required      *)
(* arguments, the valid child rows of the group in order.                      *)
(* ps, cs: "i" for a required and "o" for an optional argument.                *)
RowOk(types, args, k) == \A j \in 1..Len(types) : types[j] = "o" \/ args[j][k] # M
UsedRows(x, ps, cs, pa, ca, p) ==
  IF RowOk(ps, pa, p) THEN SelectSeq(RowsOf(x, p), LAMBDA c : RowOk(cs, ca, c)) ELSE << >>

Num(a) == IF a = M THEN 0 ELSE a + 1
Mix(h, a) == (h * 31 + a) % 10007
MixRow(h, args, k) == FoldLeft(LAMBDA acc, col : Mix(acc, Num(col[k])), h, args)
Start(pa, p) == MixRow(7, pa, p)
Digest(x, withid, pa, ca, p, rows) ==
  FoldLeft(LAMBDA acc, c : MixRow(IF withid THEN Mix(acc, c) ELSE acc, ca, c), Start(pa, p), rows)
OptRes(r) == IF r % 5 = 0 THEN M ELSE r

Position(s, c) == Cardinality({k \in 1..Len(s) : s[k] <= c})
GroupAgg(x, ps, cs, withid, pa, ca) ==
  [p \in 1..x.parent |-> IF RowOk(ps, pa, p) THEN OptRes(Digest(x, withid, pa, ca, p, UsedRows(x, ps, cs, pa, ca, p))) ELSE M]
InUse(x, ps, cs, pa, ca, c) == x.map[c] # M /\ RowOk(cs, ca, c) /\ RowOk(ps, pa, x.map[c] + 1)
GroupPartial(x, ps, cs, withid, pa, ca) ==
  LET used == [p \in 1..x.parent |-> UsedRows(x, ps, cs, pa, ca, p)] IN
  [c \in 1..Child(x) |-> IF InUse(x, ps, cs, pa, ca, c)
     THEN LET p == x.map[c] + 1 IN OptRes(Digest(x, withid, pa, ca, p, SelectSeq(used[p], LAMBDA d : d <= c)))
     ELSE M]
GroupFull(x, ps, cs, withid, pa, ca) ==
  LET used == [p \in 1..x.parent |-> UsedRows(x, ps, cs, pa, ca, p)]
      total == [p \in 1..x.parent |-> Mix(Digest(x, withid, pa, ca, p, used[p]), 500)]
  IN [c \in 1..Child(x) |-> IF InUse(x, ps, cs, pa, ca, c)
     THEN LET p == x.map[c] + 1 IN OptRes((total[p] + Position(used[p], c) - 1) % 10007)
     ELSE M]
GroupErr(x, ps, cs, withid, pa, ca) ==
  \E c \in 1..Child(x) : InUse(x, ps, cs, pa, ca, c) /\ ((withid /\ c = 100) \/ \E j \in 1..Len(ca) : ca[j][c] = 99)

(* Operators of the library. *)
Present(x, v, p) == SelectSeq(RowsOf(x, p), LAMBDA c : v[c] # M)
AggOf(a, s) == CASE a = "count" -> Len(s)
                 [] a = "sum" -> Sum(s)
                 [] a = "sumopt" -> IF s = << >> THEN M ELSE Sum(s)
                 [] a = "max" -> IF s = << >> THEN M ELSE CHOOSE m \in ToSet(s) : \A y \in ToSet(s) : y <= m
                 [] a = "collapse" -> IF Cardinality(ToSet(s)) = 1 THEN s[1] ELSE M
                 [] a = "join" -> IF s = << >> THEN M ELSE IF Len(s) = 1 THEN s[1]
                                  ELSE 20000 + FoldLeft(LAMBDA acc, y : Mix(acc, y + 1), 7, s)
Agg(a, x, v) == [p \in 1..x.parent |-> AggOf(a, LET r == Present(x, v, p) IN [k \in 1..Len(r) |-> v[r[k]]])]
CumCount(x, v) == [c \in 1..Child(x) |-> IF x.map[c] = M \/ v[c] = M THEN M ELSE Position(Present(x, v, x.map[c] + 1), c)]

InverseErr(x, v) == \E p \in 1..x.parent : LET r == RowsOf(x, p) IN
  \/ \E k \in 1..Len(r) : v[r[k]] # M /\ (v[r[k]] < 0 \/ v[r[k]] >= Len(r))
  \/ \E k, j \in 1..Len(r) : k # j /\ v[r[k]] # M /\ v[r[k]] = v[r[j]]
Inverted(x, v) == [c \in 1..Child(x) |-> IF x.map[c] = M THEN M ELSE
  LET r == RowsOf(x, x.map[c] + 1)
      pos == Position(r, c) - 1
      src == {k \in 1..Len(r) : v[r[k]] = pos}
  IN IF src = {} THEN M ELSE (CHOOSE k \in src : TRUE) - 1]

(* Take: the value at the given offset among the rows of the same group. *)
Bad(rows, o) == o # M /\ (o < 0 \/ o >= Len(rows))
TakeErr(x, o, y) == \E c \in 1..Child(y) : y.map[c] # M /\ Bad(RowsOf(x, y.map[c] + 1), o[c])
Take(x, v, o, y) == [c \in 1..Child(y) |-> IF y.map[c] = M \/ o[c] = M THEN M ELSE v[RowsOf(x, y.map[c] + 1)[o[c] + 1]]]

FirstKeys(x, v) == LET used(c) == x.map[c] # M /\ v[c] # M IN
  SelectSeq([c \in 1..Child(x) |-> c], LAMBDA c : used(c) /\ ~\E d \in 1..c - 1 : used(d) /\ x.map[d] = x.map[c] /\ v[d] = v[c])
GroupBy(x, v) == LET f == FirstKeys(x, v) IN
  MapEdge([c \in 1..Child(x) |-> IF x.map[c] = M \/ v[c] = M THEN M
            ELSE (CHOOSE k \in 1..Len(f) : x.map[f[k]] = x.map[c] /\ v[f[k]] = v[c]) - 1], Len(f))

ValidSizes(v) == Full(v) /\ \A k \in 1..Len(v) : v[k] >= 0
FromSizes(v) == SplitEdge(Prefix(v))
(* All pairs of children of the same parent, by their left and right elements. *)
Pairs(v) == LET x == FromSizes(v)
                pairsOf(c) == LET r == RowsOf(x, x.map[c] + 1) IN [k \in 1..Len(r) |-> <<c - 1, r[k] - 1>>]
            IN FlattenSeq([c \in 1..Child(x) |-> pairsOf(c)])
PairLeft(v) == LET q == Pairs(v) IN [form |-> "split", parent |-> Sum(v), map |-> [k \in 1..Len(q) |-> q[k][1]]]
PairRight(v) == LET q == Pairs(v) IN [form |-> "map", parent |-> Sum(v), map |-> [k \in 1..Len(q) |-> q[k][2]]]

(* Groups resized to ns: new row k of group p is the old row with offset k. *)
ResizeErr(x, ns, o) ==
  \/ \E c \in 1..Len(o) : o[c] # M /\ o[c] < 0
  \/ \E c, d \in 1..Len(o) : c # d /\ o[c] # M /\ o[c] = o[d] /\ x.map[c] = x.map[d] /\ o[c] < ns[x.map[c] + 1]
Resize(x, ns, o) ==
  LET y == FromSizes(ns)
      src(k) == LET p == y.map[k]
                    off == k - 1 - Prefix(ns)[p + 1]
                    cand == {c \in 1..Child(x) : x.map[c] = p /\ o[c] = off}
                IN IF cand = {} THEN M ELSE (CHOOSE c \in cand : TRUE) - 1
  IN MapEdge([k \in 1..Child(y) |-> src(k)], Child(x))
=============================================================================
