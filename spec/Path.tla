-------------------------------- MODULE Path --------------------------------
(* A path over a typed tree and what it denotes.                              *)
(*                                                                            *)
(* A message (or struct) is a record holding exactly the fields that are set; *)
(* a repeated field is a sequence, a map a sequence of <<key, value>> pairs,  *)
(* a pointer a sequence of length 0 or 1, a text a sequence of bytes.         *)
(* A path is a sequence of steps                                              *)
(*   [k |-> "reg", f]         field                [k |-> "ext", f] extension *)
(*   [k |-> "st", f]          struct member        [k |-> "deref"/"addr"]     *)
(*   [k |-> "idx", f, i]      i-th element         [k |-> "mapk", f, key]     *)
(*   [k |-> "wild", f]        key chosen later     [k |-> "size", m]  count   *)
(* and, visiting several elements,                                            *)
(*   [k |-> "rep", f]  [k |-> "keys", f]  [k |-> "vals", f]  [k |-> "root"].  *)
(* Walk denotes a path as the sequence of its leaf positions in document      *)
(* order, each <<>> (missing) or <<value>>; Assign writes through a path.     *)
EXTENDS PathName

CONSTANT Schema   \* type name |-> field name |-> [c, t, ..]

Types == DOMAIN Schema
IsRecord(t) == t \in Types
MultiKinds == {"rep", "keys", "vals", "root"}
IsMulti(e) == e.k \in MultiKinds
HasMulti(es) == \E i \in DOMAIN es : IsMulti(es[i])
LastIsSize(es) == es # <<>> /\ es[Len(es)].k = "size"

FieldName(e) == IF e.k = "ext" THEN "x:" \o e.f ELSE e.f
FieldOf(t, e) == Schema[t][FieldName(e)]
SetIn(v, n) == n \in DOMAIN v
Empty == [x \in {} |-> 0]
Texts == {"string", "bytes"}
Zero(t) == IF t \in Texts THEN <<>> ELSE 0
DefaultOf(s) == IF IsRecord(s.t) THEN Empty ELSE Zero(s.t)

RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
KeyLt(s, a, b) == IF s.kt \in Texts THEN LexLt(a, b) ELSE a < b
\* the pairs of a map in increasing order of keys
SortedPairs(s, ps) ==
  LET rank(p) == Cardinality({i \in DOMAIN ps : KeyLt(s, ps[i][1], p[1])})
  IN  [r \in 1..Len(ps) |-> ps[CHOOSE i \in DOMAIN ps : rank(ps[i]) = r - 1]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Upd(v, n, x) == [m \in DOMAIN v \cup {n} |-> IF m = n THEN x ELSE v[m]]
Without(v, ns) == [m \in DOMAIN v \ ns |-> v[m]]
SeqOf(v, n) == IF SetIn(v, n) THEN v[n] ELSE <<>>

---------------------------------------------------------------- (* types *)
\* the type a step leads to
Vec(t) == "vec:" \o t
Ptr(t) == "ptr:" \o t
Strip4(t) == SubSeq(t, 5, Len(t))
StepType(t, e) ==
  CASE e.k \in {"reg", "ext", "idx", "rep", "mapk", "wild", "vals"} -> FieldOf(t, e).t
    [] e.k = "keys" -> FieldOf(t, e).kt
    [] e.k = "st" -> FieldOf(t, e).t
    [] e.k = "root" -> Strip4(t)
    [] e.k = "deref" -> Strip4(t)
    [] e.k = "addr" -> Ptr(t)
    [] e.k = "size" -> "size"

RECURSIVE TypeAt(_, _)
TypeAt(t, es) == IF es = <<>> THEN t ELSE TypeAt(StepType(t, es[1]), Tail(es))

-------------------------------------------------------------- (* reading *)
\* elements visited by a multi step, in document order
Elems(t, v, e) ==
  CASE e.k = "root" -> v
    [] e.k = "rep" -> SeqOf(v, e.f)
    [] e.k = "keys" -> [i \in DOMAIN SeqOf(v, e.f) |-> SortedPairs(FieldOf(t, e), v[e.f])[i][1]]
    [] e.k = "vals" -> [i \in DOMAIN SeqOf(v, e.f) |-> SortedPairs(FieldOf(t, e), v[e.f])[i][2]]

Lookup(ps, key) ==
  LET is == {i \in DOMAIN ps : ps[i][1] = key}
  IN  IF is = {} THEN <<>> ELSE <<ps[CHOOSE i \in is : TRUE][2]>>

\* a single step: <<>> or <<value>>.  A proto3 field without presence is always
\* there; an extension on the way (not at the end) is read through its default
\* instance, as the path language documents.
Step(t, v, e, final, key) ==
  CASE e.k \in {"reg", "ext"} ->
         IF SetIn(v, FieldName(e)) THEN <<v[FieldName(e)]>>
         ELSE IF FieldOf(t, e).c = "imp" \/ (e.k = "ext" /\ ~final)
              THEN <<DefaultOf(FieldOf(t, e))>> ELSE <<>>
    [] e.k = "st" -> <<v[e.f]>>
    [] e.k = "idx" -> IF e.i < Len(SeqOf(v, e.f)) THEN <<v[e.f][e.i + 1]>> ELSE <<>>
    [] e.k = "mapk" -> Lookup(SeqOf(v, e.f), e.key)
    [] e.k = "wild" -> Lookup(SeqOf(v, e.f), key)
    [] e.k = "deref" -> v
    [] e.k = "addr" -> <<<<v>>>>
    [] e.k = "size" -> <<IF e.m.k = "root" THEN Len(v) ELSE Len(SeqOf(v, e.m.f))>>

RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(t, cur, es, key) ==
  IF es = <<>> THEN cur
  ELSE LET e == es[1]
           next == IF IsMulti(e)
                   THEN Flat([j \in DOMAIN cur |->
                          IF cur[j] = <<>> THEN <<>>
                          ELSE LET xs == Elems(t, cur[j][1], e) IN [i \in DOMAIN xs |-> <<xs[i]>>]])
                   ELSE [j \in DOMAIN cur |->
                          IF cur[j] = <<>> THEN (IF e.k = "size" THEN <<0>> ELSE <<>>)
                          ELSE Step(t, cur[j][1], e, Len(es) = 1, key)]
       IN  WalkFrom(StepType(t, e), next, Tail(es), key)
Walk(t, v, es, key) == WalkFrom(t, <<<<v>>>>, es, key)

-------------------------------------------------------------- (* writing *)
Extend(s, n, x) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE x]
Sibs(t, n) == IF "oo" \in DOMAIN Schema[t][n]
              THEN {m \in DOMAIN Schema[t] \ {n} : "oo" \in DOMAIN Schema[t][m] /\ Schema[t][m].oo = Schema[t][n].oo}
              ELSE {}
\* value x written into field n
Store(t, v, n, x) ==
  LET w == Without(v, Sibs(t, n))
  IN  IF Schema[t][n].c = "imp" /\ x = Zero(Schema[t][n].t) THEN Without(w, {n}) ELSE Upd(w, n, x)
\* containers are absent when empty
StoreSeq(v, n, s) == IF s = <<>> THEN Without(v, {n}) ELSE Upd(v, n, s)
PutPair(s, ps, k, x) ==
  IF \E i \in DOMAIN ps : ps[i][1] = k
  THEN [i \in DOMAIN ps |-> IF ps[i][1] = k THEN <<k, x>> ELSE ps[i]]
  ELSE SortedPairs(s, Append(ps, <<k, x>>))

\* Writes one value through single steps: [v, done].  Missing messages, map
\* entries and extensions on the way are created; a missing index or a null
\* pointer stops the write.
RECURSIVE Put(_, _, _, _)
Put(t, v, es, x) ==
  IF es = <<>> THEN [v |-> x, done |-> TRUE]
  ELSE LET e == es[1]
           rest == Tail(es)
           u == StepType(t, e)
       IN CASE e.k \in {"reg", "ext"} ->
                 LET n == FieldName(e)
                     r == Put(u, IF SetIn(v, n) THEN v[n] ELSE DefaultOf(FieldOf(t, e)), rest, x)
                 IN [v |-> IF rest = <<>> THEN Store(t, v, n, r.v)
                           ELSE Upd(Without(v, Sibs(t, n)), n, r.v), done |-> r.done]
            [] e.k = "st" -> LET r == Put(u, v[e.f], rest, x) IN [v |-> Upd(v, e.f, r.v), done |-> r.done]
            [] e.k = "idx" ->
                 IF e.i >= Len(SeqOf(v, e.f)) THEN [v |-> v, done |-> FALSE]
                 ELSE LET r == Put(u, v[e.f][e.i + 1], rest, x)
                      IN [v |-> Upd(v, e.f, [v[e.f] EXCEPT ![e.i + 1] = r.v]), done |-> r.done]
            [] e.k = "mapk" ->
                 LET old == Lookup(SeqOf(v, e.f), e.key)
                     r == Put(u, IF old = <<>> THEN DefaultOf(FieldOf(t, e)) ELSE old[1], rest, x)
                 IN [v |-> Upd(v, e.f, PutPair(FieldOf(t, e), SeqOf(v, e.f), e.key, r.v)), done |-> r.done]
            [] e.k = "deref" ->
                 IF v = <<>> THEN [v |-> v, done |-> FALSE]
                 ELSE LET r == Put(u, v[1], rest, x) IN [v |-> <<r.v>>, done |-> r.done]
            [] e.k = "size" ->
                 [v |-> StoreSeq(v, e.m.f, Extend(SeqOf(v, e.m.f), x, DefaultOf(FieldOf(t, e.m)))), done |-> TRUE]

\* Messages a stopped write may leave behind: none, or the ones on the way.
PutAll(t, v, es, x) == LET r == Put(t, v, es, x) IN IF r.done THEN {r.v} ELSE {r.v, v}

\* What a write of a missing value may leave: messages on the way, no value.
RECURSIVE Touch(_, _, _)
Touch(t, v, es) ==
  IF Len(es) = 1 THEN v
  ELSE LET e == es[1]
           rest == Tail(es)
           u == StepType(t, e)
       IN CASE e.k \in {"reg", "ext"} ->
                 LET n == FieldName(e)
                 IN  Upd(Without(v, Sibs(t, n)), n, Touch(u, IF SetIn(v, n) THEN v[n] ELSE DefaultOf(FieldOf(t, e)), rest))
            [] e.k = "st" -> Upd(v, e.f, Touch(u, v[e.f], rest))
            [] e.k = "idx" -> IF e.i >= Len(SeqOf(v, e.f)) THEN v
                              ELSE Upd(v, e.f, [v[e.f] EXCEPT ![e.i + 1] = Touch(u, @, rest)])
            [] e.k = "mapk" ->
                 LET old == Lookup(SeqOf(v, e.f), e.key)
                 IN  Upd(v, e.f, PutPair(FieldOf(t, e), SeqOf(v, e.f), e.key, Touch(u, IF old = <<>> THEN DefaultOf(FieldOf(t, e)) ELSE old[1], rest)))
            [] e.k = "deref" -> IF v = <<>> THEN v ELSE <<Touch(u, v[1], rest)>>

\* Number of leaf positions.
Count(t, v, es) == Len(Walk(t, v, es, <<>>))

\* Writes one optional value per leaf position through a path with multi steps.
\* Nothing is created before the last multi step.
RECURSIVE PutMany(_, _, _, _), PutElems(_, _, _, _)
\* every element of xs consumes its share of the values
PutElems(t, xs, es, vals) ==
  IF xs = <<>> THEN <<>>
  ELSE LET n == Count(t, xs[1], es)
       IN  <<PutMany(t, xs[1], es, SubSeq(vals, 1, n))>> \o PutElems(t, Tail(xs), es, SubSeq(vals, n + 1, Len(vals)))
PutMany(t, v, es, vals) ==
  IF ~HasMulti(es) THEN (IF vals = <<>> \/ vals[1] = <<>> THEN v ELSE Put(t, v, es, vals[1][1]).v)
  ELSE IF vals = <<>> THEN v
  ELSE LET e == es[1]
           rest == Tail(es)
           u == StepType(t, e)
       IN CASE e.k = "root" -> PutElems(u, v, rest, vals)
            [] e.k = "rep" -> Upd(v, e.f, PutElems(u, v[e.f], rest, vals))
            [] e.k = "vals" ->
                 LET ps == SortedPairs(FieldOf(t, e), v[e.f])
                     new == PutElems(u, [i \in DOMAIN ps |-> ps[i][2]], rest, vals)
                 IN  Upd(v, e.f, [i \in DOMAIN ps |-> <<ps[i][1], new[i]>>])
            [] e.k \in {"reg", "ext", "st"} -> Upd(v, FieldName(e), PutMany(u, v[FieldName(e)], rest, vals))
            [] e.k = "idx" -> Upd(v, e.f, [v[e.f] EXCEPT ![e.i + 1] = PutMany(u, v[e.f][e.i + 1], rest, vals)])
            [] e.k = "mapk" -> Upd(v, e.f, [i \in DOMAIN v[e.f] |-> IF v[e.f][i][1] = e.key THEN <<e.key, PutMany(u, v[e.f][i][2], rest, vals)>> ELSE v[e.f][i]])
            [] e.k = "deref" -> <<PutMany(u, v[1], rest, vals)>>
=============================================================================
