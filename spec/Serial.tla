------------------------------- MODULE Serial -------------------------------
(* The container format: a decoder is a machine that takes decoding steps, one  *)
(* at a time, and keeps the results of the steps for later steps to refer to.   *)
(* Values and expressions are written as terms (strings).                       *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE IF i = Len(s) THEN s[i] ELSE s[i] \o "," \o Join(s, i + 1)

(* Codecs: A knows i, B knows i and j, O makes operators; the result is a term, *)
(* "none" if the payload is another's, "error" if it is bad.                    *)
Term(name, x, vs, es) == name \o x \o "(" \o Join(vs, 1) \o "|" \o Join(es, 1) \o ")"
Decoded(name, p, vs, es) ==
  CASE name = "A" -> IF p.t # "i" THEN "none" ELSE IF p.x = "-1" THEN "error" ELSE Term("A", p.x, vs, es)
    [] name = "B" -> IF p.t \notin {"i", "j"} THEN "none" ELSE Term("B", p.x, vs, es)
    [] name = "O" -> IF p.t # "t" THEN "none" ELSE "op:" \o p.x
CodecNames == {"A", "B", "O"}
IsOp(v) == Len(v) > 3 /\ SubSeq(v, 1, 3) = "op:"
OpName(v) == SubSeq(v, 4, Len(v))
(* f1 takes one argument, g2 two, v any number.                                 *)
Arity(name) == CASE name = "f1" -> 1 [] name = "g2" -> 2 [] OTHER -> -1
Literal(v) == "L<" \o v \o ">"
Node(name, es) == name \o "[" \o Join(es, 1) \o "]"

Fresh == [k |-> "", v |-> "", u |-> 0, c |-> ""]
Start(infer) == [ok |-> TRUE, infer |-> infer, res |-> <<>>, exp |-> <<>>, known |-> <<>>, vals |-> <<>>, exprs |-> <<>>]
Fail(st) == [st EXCEPT !.ok = FALSE]
(* A result used as often as announced is dropped.  Indices count from 0.       *)
Checked(st, i) ==
  IF i >= Len(st.exp) THEN st
  ELSE LET r == st.res[i + 1]
           n == st.exp[i + 1] IN
       IF r.u > n \/ (r.k # "" /\ n < 1) THEN Fail(st)
       ELSE IF r.u = n THEN [st EXCEPT !.res[i + 1].k = "", !.res[i + 1].v = ""] ELSE st
RECURSIVE CheckAll(_, _, _)
CheckAll(st, i, n) == IF ~st.ok \/ i >= n THEN st ELSE CheckAll(Checked(st, i), i + 1, n)
Hints(st, counts) ==
  IF counts = <<>> THEN st
  ELSE IF st.exp # <<>> THEN Fail(st)
  ELSE CheckAll([st EXCEPT !.exp = counts], 0, Min2(Len(counts), Len(st.res)))
(* Using a result: [st, v].                                                     *)
Load(st, i, kind) ==
  IF i >= Len(st.res) THEN [st |-> Fail(st), v |-> ""]
  ELSE LET r == st.res[i + 1]
           after == Checked([st EXCEPT !.res[i + 1].u = r.u + 1], i) IN
       IF r.k # kind THEN [st |-> Fail(after), v |-> ""] ELSE [st |-> after, v |-> r.v]
RECURSIVE LoadAll(_, _, _, _)
LoadAll(st, is, kind, out) ==
  IF ~st.ok \/ is = <<>> THEN [st |-> st, v |-> out]
  ELSE LET l == Load(st, Head(is), kind) IN LoadAll(l.st, Tail(is), kind, Append(out, l.v))
Store(st, i, kind, v) ==
  IF ~st.ok THEN st
  ELSE IF st.res[i + 1].k # "" \/ st.res[i + 1].u > 0 THEN Fail(st)
  ELSE Checked([st EXCEPT !.res[i + 1].k = kind, !.res[i + 1].v = v], i)
RECURSIVE Detect(_, _, _, _, _)
Detect(known, i, p, vs, es) ==
  IF i > Len(known) THEN "error"
  ELSE LET d == Decoded(known[i], p, vs, es) IN IF d = "none" THEN Detect(known, i + 1, p, vs, es) ELSE d
Value(st, s, vs, es) ==
  IF s.c < 0 THEN Detect(st.known, 1, s.p, vs, es)
  ELSE IF s.c >= Len(st.res) \/ st.res[s.c + 1].c = "" THEN "error"
  ELSE LET d == Decoded(st.res[s.c + 1].c, s.p, vs, es) IN IF d = "none" THEN "error" ELSE d
Act(st, i, s) ==
  CASE s.k = "none" -> st
    [] s.k = "leaf" -> IF s.miss THEN Fail(st) ELSE Store(st, i, "e", "l:" \o s.key)
    [] s.k = "ph" -> IF s.miss THEN Fail(st) ELSE Store(st, i, "e", "p:" \o s.key)
    [] s.k = "lit" -> IF s.miss THEN Fail(st) ELSE LET l == Load(st, s.v, "v") IN Store(l.st, i, "e", Literal(l.v))
    [] s.k = "op" ->
         IF s.miss THEN Fail(st)
         ELSE LET o == Load(st, s.v, "v") IN
              IF ~o.st.ok \/ ~IsOp(o.v) THEN Fail(o.st)
              ELSE LET es == LoadAll(o.st, s.es, "e", <<>>)
                       n == Arity(OpName(o.v)) IN
                   IF es.st.ok /\ st.infer /\ n >= 0 /\ n # Len(s.es) THEN Fail(es.st)
                   ELSE Store(es.st, i, "e", Node(OpName(o.v), es.v))
    [] s.k = "val" ->
         LET vs == LoadAll(st, s.vs, "v", <<>>)
             es == LoadAll(vs.st, s.es, "e", <<>>) IN
         IF ~es.st.ok THEN es.st
         ELSE LET d == Value(es.st, s, vs.v, es.v) IN IF d = "error" THEN Fail(es.st) ELSE Store(es.st, i, "v", d)
    [] s.k = "codec" ->
         IF s.key \notin CodecNames \/ st.res[i + 1].c # "" THEN Fail(st)
         ELSE [st EXCEPT !.res[i + 1].c = s.key, !.known = Append(st.known, s.key)]
    [] s.k = "outv" -> LET l == Load(st, s.v, "v") IN IF l.st.ok THEN [l.st EXCEPT !.vals = Append(st.vals, l.v)] ELSE l.st
    [] s.k = "oute" -> LET l == Load(st, s.v, "e") IN IF l.st.ok THEN [l.st EXCEPT !.exprs = Append(st.exprs, l.v)] ELSE l.st
Step(st, s) ==
  IF s.i > Len(st.res) THEN Fail(st)
  ELSE LET grown == IF s.i = Len(st.res) THEN [st EXCEPT !.res = Append(st.res, Fresh)] ELSE st
           hinted == Hints(grown, s.h) IN
       IF ~hinted.ok THEN hinted ELSE Act(hinted, s.i, s)
RECURSIVE Run(_, _, _)
Run(st, steps, j) == IF ~st.ok \/ j > Len(steps) THEN st ELSE Run(Step(st, steps[j]), steps, j + 1)

(* What is to be encoded: values and expressions numbered from 1, each made of  *)
(* those before it.                                                             *)
RECURSIVE Write(_, _)
Write(ns, i) ==
  LET n == ns[i]
      all(is) == [j \in 1..Len(is) |-> Write(ns, is[j])] IN
  CASE n.k = "val" -> Term("A", n.x, all(n.vs), all(n.es))
    [] n.k = "opv" -> "op:" \o n.x
    [] n.k = "leaf" -> "l:" \o n.x
    [] n.k = "ph" -> "p:" \o n.x
    [] n.k = "lit" -> Literal(Write(ns, n.vs[1]))
    [] n.k = "op" -> Node(n.x, all(n.es))
IsValue(n) == n.k \in {"val", "opv"}
Values(ns, outs) == LET vs == SelectSeq(outs, LAMBDA o : IsValue(ns[o])) IN [i \in 1..Len(vs) |-> Write(ns, vs[i])]
Exprs(ns, outs) == LET es == SelectSeq(outs, LAMBDA o : ~IsValue(ns[o])) IN [i \in 1..Len(es) |-> Write(ns, es[i])]
(* Everything the outputs are made of, operators included.                      *)
RECURSIVE Parts(_, _)
Parts(ns, i) ==
  LET n == ns[i] IN
  {Write(ns, i)} \cup UNION {Parts(ns, n.vs[j]) : j \in 1..Len(n.vs)} \cup UNION {Parts(ns, n.es[j]) : j \in 1..Len(n.es)}
                 \cup (IF n.k = "op" THEN {"op:" \o n.x} ELSE {})
AllParts(ns, outs) == UNION {Parts(ns, outs[i]) : i \in 1..Len(outs)}
=============================================================================
