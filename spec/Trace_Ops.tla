----------------------------- MODULE Trace_Ops -----------------------------
EXTENDS TraceBase, Ops

OutO(o) == [cls |-> o.cls, args |-> o.args, hdrs |-> o.hdrs, deps |-> o.deps, groups |-> <<o.group>>, fids |-> o.fids]
\* Recorded overloads of a BUILD file as overloads.
InO(o) == [cls |-> o.cls, args |-> o.args, hdrs |-> o.hdrs, deps |-> o.deps, group |-> o.groups[1], fids |-> o.fids]

OkDecl(e) == IF e.kind = "family" THEN OkFamily(e) ELSE OkOps(e, Overloads(e.pkg, e.e))
OkDeclared(e) == ~Understood(e) \/ IF e.kind = "family" THEN OkFamily(e) ELSE OkOps(e, MapS(InO, e.ovs))

Numeric == <<"int32_t", "int64_t", "float", "double">>
Consts == [integral_types |-> {"int32_t", "int64_t"}, float_types |-> {"float", "double"}, numeric_types |-> Rng(Numeric),
           string_types |-> {"::arolla::Bytes", "::arolla::Text"},
           ordered_types |-> Rng(Numeric) \cup {"bool", "::arolla::Bytes", "::arolla::Text", Unit},
           scalar_types |-> Rng(Numeric) \cup {"bool", "::arolla::Bytes", "::arolla::Text", Unit, "uint64_t"},
           dict_key_types |-> {"int32_t", "int64_t", "::arolla::Bytes", "::arolla::Text", "bool", "uint64_t"}]
OkConst(e) == IF e.name = "dict_types"
              THEN Rng(e.out) = {<<k, "::arolla::KeyToRowDict<" \o k \o ">">> : k \in Consts.dict_key_types} /\ Distinct(e.out)
              ELSE Rng(e.out) = Consts[e.name] /\ Distinct(e.out)
OkFn(e) ==
  LET n == Len(e.types)
      s(i) == Show(e.types[i])
      o(i) == Show([k |-> "o", x |-> e.types[i]]) IN
  CASE e.fn = "unary_args" -> e.out = [i \in 1..n |-> <<s(i)>>]
    [] e.fn = "binary_args" -> e.out = [i \in 1..n |-> <<s(i), s(i)>>]
    [] e.fn = "n_ary_args" -> e.out = [i \in 1..n |-> [j \in 1..e.n |-> s(i)]]
    [] e.fn \in {"make_optional_types", "make_optional_type"} -> e.out = [i \in 1..n |-> o(i)]
    [] e.fn = "is_liftable" -> e.out = [i \in 1..n |-> Liftable(e.types[i])]
    [] e.fn = "dont_lift" -> e.out = [i \in 1..n |-> TagP \o s(i) \o ">"]
    [] e.fn = "decay_dont_lift" -> e.out = [i \in 1..n |-> Decayed(s(i))]
    [] e.fn = "make_dense_array_type" -> e.out = [i \in 1..n |-> "::arolla::AsDenseArray<" \o s(i) \o ">"]
    [] e.fn = "make_array_type" -> e.out = [i \in 1..n |-> "::arolla::AsArray<" \o Decayed(s(i)) \o ">"]
    [] e.fn = "identity" -> e.out = [i \in 1..n |-> s(i)]
    [] e.fn = "meta_type_list" -> e.out = "::arolla::meta::type_list<" \o JoinS([i \in 1..n |-> s(i)], ", ") \o ">"

TypeText(t) == IF t.o THEN ShowOpt(B(t.t)) ELSE t.t
OkCall(e) ==
  LET o == Denote(e.pkg, e.e)[e.i] IN
  IF e.extra THEN ~e.found
  ELSE /\ [j \in 1..Len(e.ts) |-> TypeText(e.ts[j])] = [j \in 1..Len(o.args) |-> Decayed(Show(o.args[j]))]
       /\ e.out = ResultType(o, e.opk)
       /\ e.found /\ e.exact
       /\ e.res = [c \in 1..Len(e.vs) |-> Call(o, e.id, e.opk, e.vs[c])]
OkMeta(e) ==
  LET o == Denote(e.pkg, e.e)[e.i] IN
  IF e.extra THEN ~e.found
  ELSE /\ e.found
       /\ e.m.name = e.opname /\ e.m.types /\ e.m.has /\ e.m.family = ""
       /\ e.m.cls = o.cls /\ e.m.hdrs = o.hdrs /\ e.m.deps = o.deps /\ e.m.fids = o.fids
       /\ e.m.ctx = (e.opk = "Ctx") /\ e.m.status = (e.opk = "Status")
       \* the target is one that registers just this overload.
       /\ e.lib = "" \/ e.m.target = "//" \o e.pkg \o ":" \o e.lib
OkFamCall(e) == /\ e.found = (Len(e.ts) >= e.pick)
                /\ e.found => e.res = [c \in 1..Len(e.vs) |-> [ok |-> TRUE, v |-> e.vs[c][e.pick]]]
OkFamMeta(e) ==
  LET fh(h) == FullHdr(e.pkg, h)
      fd(x) == FullDep(e.pkg, x) IN
  /\ e.found /\ e.m.name = e.opname /\ e.m.family = e.cls /\ e.m.target = "//" \o e.pkg \o ":" \o e.name
  /\ e.m.hdrs = Dedup(MapS(fh, e.hdrs)) /\ e.m.deps = Dedup(MapS(fd, e.deps))

\* Initializer declarations: names sorted, each once; odd names are refused.
Valid(n) == n # <<>> /\ \A i \in 1..Len(n) : n[i] \in (48..57) \cup (65..90) \cup (97..122) \cup {46, 95, 47, 64, 58}
LtCp(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                  D == {i \in 1..m : a[i] # b[i]} IN
              IF D = {} THEN Len(a) < Len(b) ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
SortedSet(out, in) == Rng(out) = Rng(in) /\ \A i \in 1..(Len(out) - 1) : LtCp(out[i], out[i + 1])
OkInit(e) ==
  LET hasn == "name" \in Rng(e.has)
      ds == IF "deps" \in Rng(e.has) THEN e.deps ELSE <<>>
      rs == IF "reverse_deps" \in Rng(e.has) THEN e.reverse_deps ELSE <<>>
      good == (hasn => Valid(e.name)) /\ \A x \in Rng(ds) \cup Rng(rs) : Valid(x) IN
  IF good THEN e.err = "" /\ e.out.hasname = hasn /\ (hasn => e.out.name = e.name) /\ SortedSet(e.out.deps, ds) /\ SortedSet(e.out.reverse_deps, rs)
  ELSE e.err = "Failed"

Ok(e) == CASE e.op = "denote" -> e.err = "" /\ e.out = MapS(OutO, Overloads(e.pkg, e.e))
           [] e.op = "rules" -> e.err = "" /\ (~Understood(e) \/ OkDecl(e))
           [] e.op = "package" -> e.dups = <<>>
           [] e.op = "declared" -> OkDeclared(e)
           [] e.op = "groups" -> e.err = (IF Len(e.gs) > 1 THEN "Failed" ELSE "")
           [] e.op = "fn" -> OkFn(e)
           [] e.op = "const" -> OkConst(e)
           [] e.op = "init" -> OkInit(e)
           [] e.op = "call" -> IF e.kind = "family" THEN OkFamCall(e) ELSE OkCall(e)
           [] e.op = "meta" -> IF e.kind = "family" THEN OkFamMeta(e) ELSE OkMeta(e)
           [] e.op = "list" -> e.names = e.want
           [] e.op = "compile" -> e.ok
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
