------------------------------- MODULE Codecs -------------------------------
(* Values of the library as terms, the names of their types, and what reading   *)
(* one back gives.  Parts: scalars "s", optionals "o", arrays "d" and "a", the  *)
(* edges and shapes, tuples, types "qt", quoted expressions, operators, nodes.  *)
EXTENDS Integers, Sequences
Upper(s) ==
  CASE s = "unit" -> "UNIT" [] s = "bool" -> "BOOLEAN" [] s = "bytes" -> "BYTES" [] s = "text" -> "TEXT"
    [] s = "i32" -> "INT32" [] s = "i64" -> "INT64" [] s = "u64" -> "UINT64" [] s = "f32" -> "FLOAT32"
    [] s = "f64" -> "FLOAT64" [] s = "wf" -> "WEAK_FLOAT" [] s = "sshape" -> "SCALAR_SHAPE"
    [] s = "oshape" -> "OPTIONAL_SCALAR_SHAPE" [] s = "sedge" -> "SCALAR_TO_SCALAR_EDGE" [] s = "unspec" -> "UNSPECIFIED"
RECURSIVE List(_, _)
List(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o (IF i = Len(s) THEN "" ELSE ",") \o List(s, i + 1)
RECURSIVE TypeName(_)
TypeName(v) ==
  LET fields == [i \in 1..Len(v.f) |-> TypeName(v.f[i])] IN
  CASE v.t \in {"s", "k"} -> Upper(v.s)
    [] v.t = "o" -> "OPTIONAL_" \o Upper(v.s)
    [] v.t = "d" -> "DENSE_ARRAY_" \o Upper(v.s)
    [] v.t = "a" -> "ARRAY_" \o Upper(v.s)
    [] v.t = "de" -> "DENSE_ARRAY_EDGE" [] v.t = "ae" -> "ARRAY_EDGE"
    [] v.t = "dts" -> "DENSE_ARRAY_TO_SCALAR_EDGE" [] v.t = "ats" -> "ARRAY_TO_SCALAR_EDGE"
    [] v.t = "dsh" -> "DENSE_ARRAY_SHAPE" [] v.t = "ash" -> "ARRAY_SHAPE"
    [] v.t = "tup" -> "tuple<" \o List(fields, 1) \o ">"
    [] v.t = "nt" -> "namedtuple<" \o List([i \in 1..Len(fields) |-> v.xs[i] \o "=" \o fields[i]], 1) \o ">"
    [] v.t = "sl" -> "slice<" \o List(fields, 1) \o ">"
    [] v.t = "qt" -> "QTYPE" [] v.t = "q" -> "EXPR_QUOTE" [] v.t = "op" -> "EXPR_OPERATOR"
RECURSIVE Content(_)
Content(v) ==
  LET type(w) == [w EXCEPT !.t = "qt", !.s = "", !.x = TypeName(w), !.n = 0, !.xs = <<>>, !.f = <<>>, !.es = <<>>, !.of = <<>>, !.d = ""] IN
  IF v.t = "qt" THEN type(v.of[1])
  ELSE [v EXCEPT !.f = [i \in 1..Len(v.f) |-> Content(v.f[i])], !.es = [i \in 1..Len(v.es) |-> Content(v.es[i])],
                 !.of = [i \in 1..Len(v.of) |-> type(v.of[i])]]
Contents(s) == [i \in 1..Len(s) |-> Content(s[i])]
=============================================================================
