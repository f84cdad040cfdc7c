-------------------------------- MODULE Ops --------------------------------
(* Operator declarations and the registrations they denote.                  *)
(* A declaration expression denotes a sequence of overloads; a library       *)
(* target registers the overloads of its sources and of its dependencies.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Prefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Suffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasChar(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
RECURSIVE JoinS(_, _)
JoinS(p, sep) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o sep \o JoinS(Tail(p), sep)
MapS(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Rng(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET d == Dedup(SubSeq(s, 1, Len(s) - 1)) IN
            IF s[Len(s)] \in Rng(d) THEN d ELSE Append(d, s[Len(s)])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

----------------------------------------------------------------------------
(* Types: base text, optional, not-to-be-lifted, dense array, array.        *)
Unit == "::arolla::Unit"
OptUnit == "::arolla::OptionalUnit"
OptP == "::arolla::OptionalValue<"
TagP == "::arolla::DoNotLiftTag<"
RECURSIVE Show(_)
RECURSIVE ShowOpt(_)
Show(t) == CASE t.k = "b" -> t.s
             [] t.k = "n" -> TagP \o Show(t.x) \o ">"
             [] t.k = "o" -> ShowOpt(t.x)
             [] t.k = "d" -> "::arolla::AsDenseArray<" \o Show(t.x) \o ">"
             [] t.k = "a" -> "::arolla::AsArray<" \o Show(IF t.x.k = "n" THEN t.x.x ELSE t.x) \o ">"
\* The optional of a type is optional once; a tag is dropped.
ShowOpt(t) == CASE t.k = "n" -> ShowOpt(t.x)
                [] t.k = "o" -> ShowOpt(t.x)
                [] t.k = "b" /\ t.s = Unit -> OptUnit
                [] t.k = "b" /\ (t.s = OptUnit \/ Prefix(t.s, OptP)) -> t.s
                [] OTHER -> OptP \o Show(t) \o ">"
Liftable(t) == t.k # "n"
Tagged(s) == Prefix(s, TagP) /\ Suffix(s, ">")
Decayed(s) == IF Tagged(s) THEN SubSeq(s, Len(TagP) + 1, Len(s) - 1) ELSE s
TypeList(args) == "::arolla::meta::type_list<" \o JoinS(MapS(Show, args), ",") \o ">"

----------------------------------------------------------------------------
FullHdr(pkg, h) == IF HasChar(h, "/") THEN h ELSE pkg \o "/" \o h
FullDep(pkg, d) == IF Prefix(d, ":") THEN "//" \o pkg \o d ELSE d
Extra(o, hdrs, deps) == [hdrs |-> Dedup(o.hdrs \o hdrs), deps |-> Dedup(o.deps \o deps)]

ArrayHdrs == <<"arolla/array/qtype/types.h", "arolla/qexpr/lift_to_optional_operator.h",
               "arolla/qexpr/operators/dense_array/lifter.h", "arolla/qexpr/operators/array/lifter.h">>
ArrayDeps == <<"//arolla/array", "//arolla/array/qtype", "//arolla/qexpr/operators/dense_array:lib", "//arolla/qexpr/operators/array:lib">>
B(s) == [k |-> "b", s |-> s]
Wrap(kind, args) == [i \in 1..Len(args) |-> IF Liftable(args[i]) THEN [k |-> kind, x |-> args[i]] ELSE args[i]]
All(kind, args) == [i \in 1..Len(args) |-> [k |-> kind, x |-> args[i]]]
GroupOp(n, a) == "::arolla::" \o n \o "<" \o a \o "," \o a \o "::parent_types," \o a \o "::child_types>"
New(cls, args, hd, group) == [cls |-> cls, args |-> args, hdrs |-> hd.hdrs, deps |-> hd.deps, group |-> group, fids |-> <<>>, orig |-> <<>>]

AccTo(o, kind, lifter, edge, many, hdr, dep, group) ==
  New(GroupOp(lifter, o.cls), (IF many THEN All(kind, o.parent) ELSE o.parent) \o All(kind, o.child) \o <<B(edge)>> \o o.init,
      Extra(o, <<hdr>>, <<dep>>), group)

Lift(l, o) ==
  CASE l = "lift_to_optional" ->
         [New("::arolla::OptionalLiftedOperator<" \o o.cls \o "," \o TypeList(o.args) \o ">", Wrap("o", o.args),
              Extra(o, <<"arolla/qexpr/lift_to_optional_operator.h">>, <<"//arolla/qexpr">>), "on_optionals") EXCEPT !.orig = o.args]
    [] l = "lift_to_array" ->
         New("::arolla::ArrayPointwiseLifter<" \o o.cls \o "," \o TypeList(o.args) \o ">", Wrap("a", o.args),
             Extra(o, ArrayHdrs, ArrayDeps), "on_arrays")
    [] l = "lift_to_dense_array" ->
         New("::arolla::DenseArrayLifter<" \o o.cls \o "," \o TypeList(o.args) \o ",true>", Wrap("d", o.args),
             Extra(o, <<"arolla/qexpr/operators/dense_array/lifter.h", "arolla/dense_array/qtype/types.h">>,
                      <<"//arolla/qexpr/operators/dense_array:lib", "//arolla/dense_array/qtype">>), "on_dense_arrays")
    [] l = "lift_accumulator_to_scalar" ->
         New(GroupOp("ScalarToScalarGroupLifter", o.cls), o.parent \o All("o", o.child) \o <<B("::arolla::ScalarToScalarEdge")>> \o o.init,
             Extra(o, <<"arolla/qexpr/lift_accumulator_to_scalar_operator.h">>, <<"//arolla/qexpr">>), "plain")
    [] l = "dense_edge" -> AccTo(o, "d", "DenseArrayGroupLifter", "::arolla::DenseArrayEdge", TRUE,
                                 "arolla/qexpr/operators/dense_array/group_lifter.h", "//arolla/qexpr/operators/dense_array:lib", "on_dense_arrays")
    [] l = "dense_scalar" -> AccTo(o, "d", "DenseArrayGroupLifter", "::arolla::DenseArrayGroupScalarEdge", FALSE,
                                   "arolla/qexpr/operators/dense_array/group_lifter.h", "//arolla/qexpr/operators/dense_array:lib", "on_dense_arrays")
    [] l = "array_edge" -> AccTo(o, "a", "ArrayGroupLifter", "::arolla::ArrayEdge", TRUE,
                                 "arolla/qexpr/operators/array/lifter.h", "//arolla/qexpr/operators/array:lib", "on_arrays")
    [] l = "array_scalar" -> AccTo(o, "a", "ArrayGroupLifter", "::arolla::ArrayGroupScalarEdge", FALSE,
                                   "arolla/qexpr/operators/array/lifter.h", "//arolla/qexpr/operators/array:lib", "on_arrays")

Lifters(names) == Flat([i \in 1..Len(names) |->
   CASE names[i] = "dense_array_accumulator_lifters" -> <<"dense_edge", "dense_scalar">>
     [] names[i] = "array_accumulator_lifters" -> <<"array_edge", "array_scalar">>
     [] OTHER -> <<names[i]>>])
LiftBy(ls, ovs) == Flat([i \in 1..Len(ls) |-> [j \in 1..Len(ovs) |-> Lift(ls[i], ovs[j])]])

\* The overloads a declaration expression denotes.
RECURSIVE Denote(_, _)
Denote(pkg, e) ==
  LET fh(h) == FullHdr(pkg, h)
      fd(d) == FullDep(pkg, d)
      grp == IF e.group = "" THEN "plain" ELSE e.group IN
  CASE e.f = "ov" -> [i \in 1..Len(e.args) |->
         [cls |-> e.cls, args |-> e.args[i], hdrs |-> Dedup(MapS(fh, e.hdrs)), deps |-> Dedup(MapS(fd, e.deps)),
          group |-> grp, fids |-> e.fids, orig |-> <<>>]]
    [] e.f = "acc" -> <<[cls |-> e.cls, parent |-> e.parent, child |-> e.child, init |-> e.init,
                         hdrs |-> Dedup(MapS(fh, e.hdrs)), deps |-> Dedup(MapS(fd, e.deps)), group |-> grp]>>
    [] e.f = "cat" -> Flat([i \in 1..Len(e.x) |-> Denote(pkg, e.x[i])])
    [] e.f = "lift" -> LiftBy(Lifters(e.lifters), Denote(pkg, e.x))
    [] e.f = "with" -> LET o == Denote(pkg, e.x) IN o \o LiftBy(Lifters(e.lifters), o)
Shown(o) == [cls |-> o.cls, args |-> MapS(Show, o.args), hdrs |-> o.hdrs, deps |-> o.deps, group |-> o.group, fids |-> o.fids]
Overloads(pkg, e) == MapS(Shown, Denote(pkg, e))

----------------------------------------------------------------------------
(* The targets of one declaration: libs are [name, srcs, deps, ...], sources *)
(* [out, ctx]; ctx says what the source registers.                           *)
Groups(ovs) == Dedup([i \in 1..Len(ovs) |-> ovs[i].group])
OfGroup(ovs, g) == SelectSeq(ovs, LAMBDA o : o.group = g)
Brief(o) == [cls |-> o.cls, args |-> o.args]
Common == {"//arolla/qexpr", "//arolla/qtype", "//arolla/util"}
UnionSeq(ovs, f(_)) == Dedup(Flat(MapS(f, ovs)))
Hdrs(o) == o.hdrs
Deps(o) == o.deps

SourceOf(d, lib) == {i \in 1..Len(d.rend) : d.rend[i].out \in Rng(lib.srcs)}
\* Every source belongs to one library, every library's sources are made.
WellFormed(d) ==
  /\ d.other = 0
  /\ Distinct(MapS(LAMBDA x : x.name, d.libs \o d.rend)) /\ Distinct(MapS(LAMBDA x : x.out, d.rend))
  /\ \A i \in 1..Len(d.libs) : Cardinality(SourceOf(d, d.libs[i])) = Len(d.libs[i].srcs)
  /\ \A j \in 1..Len(d.rend) : Cardinality({i \in 1..Len(d.libs) : d.rend[j].out \in Rng(d.libs[i].srcs)}) = 1

LibsOf(d, P(_, _)) == {i \in 1..Len(d.libs) : Len(d.libs[i].srcs) = 1 /\ P(d.libs[i], d.rend[CHOOSE k \in SourceOf(d, d.libs[i]) : TRUE])}
Default(copts) == <<"//conditions:default=['-g0']">> \o copts

OkLib(d, lib, src, ovs, tags) ==
  /\ lib.always /\ lib.testonly = d.testonly /\ src.testonly = d.testonly
  /\ lib.tags = tags /\ src.tags = tags /\ lib.copts = Default(d.copts) /\ lib.vis = d.vis
  /\ (Common \cup Rng(UnionSeq(ovs, Deps))) \subseteq Rng(lib.deps)
  /\ src.ctx.hdrs = UnionSeq(ovs, Hdrs)

OkOps(d, ovs) ==
  LET pkg == d.pkg
      notap == d.tags \o <<"notap">>
      indiv(i) == LibsOf(d, LAMBDA l, s : s.ctx.kind = "reg" /\ s.ctx.indiv /\ s.ctx.ovs = <<Brief(ovs[i])>>)
      grp(g) == LibsOf(d, LAMBDA l, s : s.ctx.kind = "reg" /\ ~s.ctx.indiv /\ l.name = d.name \o "_" \o g)
      meta == LibsOf(d, LAMBDA l, s : s.ctx.kind = "meta")
      main == {i \in 1..Len(d.libs) : d.libs[i].srcs = <<>>}
      gs == Groups(ovs)
      the(S) == d.libs[CHOOSE i \in S : TRUE]
      src(l) == d.rend[CHOOSE k \in SourceOf(d, l) : TRUE] IN
  /\ WellFormed(d)
  /\ Cardinality(Rng(gs)) = Len(gs)
  /\ Len(d.libs) = Len(ovs) + Len(gs) + 2
  /\ \A i \in 1..Len(ovs) : /\ Cardinality(indiv(i)) = 1
                             /\ LET l == the(indiv(i)) IN
                                /\ OkLib(d, l, src(l), <<ovs[i]>>, notap) /\ src(l).ctx.op = d.opname
                                /\ src(l).ctx.target = "//" \o pkg \o ":" \o l.name
                                /\ Prefix(l.name, d.name \o "_")
  /\ \A k \in 1..Len(gs) : /\ Cardinality(grp(gs[k])) = 1
                            /\ LET l == the(grp(gs[k])) IN
                               /\ OkLib(d, l, src(l), OfGroup(ovs, gs[k]), notap) /\ src(l).ctx.op = d.opname
                               /\ src(l).ctx.ovs = MapS(Brief, OfGroup(ovs, gs[k]))
                               /\ src(l).ctx.target = "//" \o pkg \o ":" \o l.name
  /\ Cardinality(meta) = 1
  /\ LET l == the(meta)
         m == src(l).ctx.ovs IN
     /\ l.name = d.name \o "_metadata" /\ OkLib(d, l, src(l), ovs, <<>>)
     /\ Len(m) = Len(ovs)
     /\ \A i \in 1..Len(ovs) : /\ m[i].op = d.opname /\ m[i].cls = ovs[i].cls /\ m[i].hdrs = ovs[i].hdrs /\ m[i].deps = ovs[i].deps
                                /\ m[i].args = MapS(Decayed, ovs[i].args) /\ m[i].fids = ovs[i].fids
                                /\ m[i].target = "//" \o pkg \o ":" \o the(indiv(i)).name
  /\ Cardinality(main) = 1
  /\ LET l == the(main) IN
     /\ l.name = d.name /\ l.always /\ l.tags = d.tags /\ l.testonly = d.testonly /\ l.copts = Default(d.copts) /\ l.vis = d.vis
     /\ Rng(l.deps) = {":" \o d.name \o "_" \o gs[k] : k \in 1..Len(gs)}

OkFamily(d) ==
  LET fh(h) == FullHdr(d.pkg, h)
      fd(x) == FullDep(d.pkg, x)
      of(n) == LibsOf(d, LAMBDA l, s : l.name = n)
      ok(n, tm) == /\ Cardinality(of(n)) = 1
                   /\ LET l == d.libs[CHOOSE i \in of(n) : TRUE]
                          s == d.rend[CHOOSE k \in SourceOf(d, l) : TRUE] IN
                      /\ l.always /\ l.testonly = d.testonly /\ s.testonly = d.testonly /\ l.tags = d.tags /\ l.vis = d.vis
                      /\ s.ctx.kind = "family" /\ s.ctx.op = d.opname /\ s.ctx.cls = d.cls
                      /\ s.ctx.target = "//" \o d.pkg \o ":" \o d.name
                      /\ s.ctx.hdrs = Dedup(MapS(fh, d.hdrs)) /\ s.ctx.deps = Dedup(MapS(fd, d.deps))
                      /\ ({"//arolla/qexpr", "//arolla/util"} \cup {fd(x) : x \in Rng(d.deps)}) \subseteq {fd(x) : x \in Rng(l.deps)}
                      /\ s.tmpl = tm IN
  /\ WellFormed(d) /\ Len(d.libs) = 2
  /\ ok(d.name, "//arolla/codegen/qexpr:operator_family_registration.cc.jinja2")
  /\ ok(d.name \o "_metadata", "//arolla/codegen/qexpr:operator_family_metadata.cc.jinja2")
Understood(d) == \A i \in 1..Len(d.rend) : d.rend[i].ctx.kind # "unknown"

----------------------------------------------------------------------------
(* Meaning of the operators used in the harness: Id*10000 + sum i*x_i.      *)
RECURSIVE Weighted(_, _)
Weighted(xs, i) == IF i > Len(xs) THEN 0 ELSE i * xs[i] + Weighted(xs, i + 1)
OpValue(id, xs) == id * 10000 + Weighted(xs, 1)
IsOpt(t) == t.k = "o"
\* Value of an argument (<<>>: missing) of a declared type.
RECURSIVE BaseOf(_)
BaseOf(t) == IF t.k = "b" THEN t.s ELSE BaseOf(t.x)
Num(t, v) == IF v = <<>> THEN (IF BaseOf(t) = Unit THEN 0 ELSE -1)
             ELSE IF BaseOf(t) = Unit THEN 1 ELSE v[1]
\* Result of calling overload o (of an operator with this id and kind).
RECURSIVE Untag(_)
Untag(t) == IF t.k = "n" THEN Untag(t.x) ELSE t
Call(o, id, kind, vs) ==
  LET lifted == o.orig # <<>>
      n == Len(vs)
      \* arguments that must be present for the operator to be called.
      skip == lifted /\ \E j \in 1..n : o.orig[j].k = "b" /\ vs[j] = <<>>
      xs == [j \in 1..n |-> Num(o.args[j], vs[j])]
      bad == kind \in {"Ctx", "Status"} /\ \E j \in 1..n : xs[j] = 13 IN
  IF skip THEN [ok |-> TRUE, v |-> <<>>]
  ELSE IF bad THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE, v |-> IF kind = "Pair" THEN <<OpValue(id, xs), id>> ELSE <<OpValue(id, xs)>>]
ResultType(o, kind) == IF kind = "Pair" THEN [t |-> "tuple", o |-> FALSE] ELSE [t |-> "int64_t", o |-> o.orig # <<>>]
=============================================================================
