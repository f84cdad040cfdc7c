----------------------------- MODULE Trace_Path -----------------------------
(* Declared paths, the access code generated for them, and the loaders and    *)
(* listeners rendered from sets of paths, against Path.                       *)
EXTENDS TraceBase, Path

SchemaIn == JsonDeserialize(IOEnv.SCHEMA)

Kinds(es) == {es[i].k : i \in DOMAIN es}
NWild(es) == Cardinality({i \in DOMAIN es : es[i].k = "wild"})
LastMulti(es) == es # <<>> /\ IsMulti(es[Len(es)])

\* steps that are no steps of the language (malformed texts)
Malformed(es) ==
  \/ es = <<>>
  \/ "bad" \in Kinds(es)
  \/ \E i \in DOMAIN es : es[i].k = "size" /\ (i # Len(es) \/ es[i].m.k = "bad")

\* the declaration is refused
Refused(e) ==
  \/ Malformed(e.es)
  \/ IF e.wild THEN NWild(e.es) # 1 \/ LastIsSize(e.es) ELSE NWild(e.es) # 0
  \/ e.mode = "get" /\ HasMulti(e.es) /\ ~e.arr
  \/ /\ e.mode = "mut"
     /\ \/ LastMulti(e.es) \/ e.wild
        \/ (HasMulti(e.es) \/ LastIsSize(e.es)) /\ ~e.arr
        \/ "keys" \in Kinds(e.es)
        \/ "addr" \in Kinds(e.es)
        \/ LastIsSize(e.es) /\ e.es[Len(e.es)].m.k = "root"

OkDecl(e) ==
  IF Refused(e) THEN e.err # ""
  ELSE /\ e.err = ""
       /\ e.name = NameOf(e.es)
       /\ e.mode # "parse" => e.pname = e.name /\ e.ppath = e.chars

\* ------------------------------------------------------------------ values
IntLike == {"int32", "sint32", "sfixed32", "enum"}
TypeOf(t, ct) ==
  CASE ct = "::arolla::Text" -> "TEXT"
    [] ct = "int64_t" -> "INT64"
    [] ct = "double" -> "FLOAT64"
    [] t \in IntLike -> "INT32"
    [] t \in {"int64", "sint64", "sfixed64", "uint32", "fixed32", "size"} -> "INT64"
    [] t \in {"uint64", "fixed64"} -> "UINT64"
    [] t = "float" -> "FLOAT32"
    [] t = "double" -> "FLOAT64"
    [] t = "bool" -> "BOOLEAN"
    [] t \in Texts -> "BYTES"
    [] OTHER -> "PTR"

KeyIn(e) == IF Has(e, "key") THEN e.key ELSE <<>>
Read(e) == Walk(e.root, e.v, e.es, KeyIn(e))

OkGet(e) ==
  LET w == Read(e)
  IN  CASE HasMulti(e.es) -> e.got.kind = "arr" /\ e.got.type = TypeOf(e.t, e.ct) /\ e.got.v = w
        [] LastIsSize(e.es) -> e.got.kind = "shape" /\ e.got.v = w[1][1]
        [] e.mode = "def" -> e.got.kind = "val" /\ e.got.type = TypeOf(e.t, e.ct) /\ e.got.v = (IF w[1] = <<>> THEN e.dflt ELSE w[1][1])
        [] OTHER -> e.got.kind = "opt" /\ e.got.type = TypeOf(e.t, e.ct) /\ e.got.v = w[1]

\* what a write may leave
Written(root, v, es, x) ==
  IF HasMulti(es) THEN {PutMany(root, v, es, x)}
  ELSE IF LastIsSize(es) THEN PutAll(root, v, es, x)
  ELSE IF x = <<>> THEN {v} ELSE PutAll(root, v, es, x[1])
Fits(root, v, es, x) == HasMulti(es) => Len(x) = Count(root, v, es)

OkPut(e) ==
  IF Fits(e.root, e.v, e.es, e.val)
  THEN /\ e.status = "OK" /\ e.in.type = (IF LastIsSize(e.es) /\ ~HasMulti(e.es) THEN "SHAPE" ELSE TypeOf(e.t, e.ct))
       /\ e.after \in Written(e.root, e.v, e.es, e.val)
  ELSE e.status # "OK" /\ e.after = e.v

---------------------------------------------------- (* loaders, listeners *)
\* accs: the declared accessors of a loader or listener; a: index into it
AccName(c) == IF c.name = <<>> THEN NameOf(c.es) ELSE c.name
IsWild(c) == "wild" \in Kinds(c.es)
\* a name pattern ..%s.. with the key in it
RECURSIVE Subst(_, _)
Subst(p, k) == IF p = <<>> THEN <<>> ELSE IF Len(p) >= 2 /\ SubSeq(p, 1, 2) = Cp("%s") THEN k \o SubSeq(p, 3, Len(p)) ELSE <<p[1]>> \o Subst(Tail(p), k)
WantName(e, w) == LET c == e.accs[w.a] IN IF IsWild(c) THEN Subst(AccName(c), w.kname) ELSE AccName(c)
ShapeOf(c) ==
  CASE HasMulti(c.es) -> "arr:" \o TypeOf(c.t, c.ct)
    [] LastIsSize(c.es) -> "shape:SHAPE"
    [] c.mode = "raw" -> "val:" \o TypeOf(c.t, c.ct)
    [] OTHER -> "opt:" \o TypeOf(c.t, c.ct)
Expected(root, v, w, c) ==
  LET r == Walk(root, v, c.es, IF Has(w, "key") THEN w.key ELSE <<>>)
  IN  IF HasMulti(c.es) THEN r ELSE IF LastIsSize(c.es) \/ c.mode = "raw" THEN r[1][1] ELSE r[1]
Known(e) == \A i \in DOMAIN e.want : LET w == e.want[i]
                                     IN  IF w.a = 0 THEN e.types[i] = "none"
                                         ELSE e.types[i] = ShapeOf(e.accs[w.a]) /\ Assert(w.n = WantName(e, w), <<"harness name", w>>)
NamesOf(e) == {AccName(e.accs[i]) : i \in {i \in DOMAIN e.accs : ~IsWild(e.accs[i])}}
Count1(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Available(e) == /\ \A n \in NamesOf(e) : Count1(e.avail, n) = 1
                /\ Len(e.avail) = Len(e.accs)
BadSlots(e) == \E i \in DOMAIN e.want : Has(e.want[i], "as") /\ e.want[i].a # 0

OkLoad(e) ==
  /\ Known(e) /\ Available(e)
  /\ IF BadSlots(e) THEN e.status = "ERROR"
     ELSE /\ e.status = "OK" /\ Len(e.got) = Len(e.vs)
          /\ Has(e, "left") => e.left = 1
          /\ \A j \in DOMAIN e.vs : \A i \in DOMAIN e.want :
               LET w == e.want[i]
               IN  w.a # 0 => LET c == e.accs[w.a]
                                  g == e.got[j][i]
                              IN  g.kind \o ":" \o g.type = ShapeOf(c) /\ g.v = Expected(e.root, e.vs[j], w, c)

\* sharded loaders: the names are split between the shards
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
OkShards(e) ==
  LET all == Flatten(e.shards)
  IN  /\ Len(e.shards) = (IF e.count < Len(e.accs) THEN e.count ELSE Len(e.accs))
      /\ \A i \in DOMAIN e.shards : e.shards[i] # <<>>
      /\ Len(all) = Len(e.accs) /\ \A n \in NamesOf(e) : Count1(all, n) = 1

\* Sizes first (outer before inner), then values.
Phase(c) == IF ~LastIsSize(c.es) THEN 1000 ELSE IF HasMulti(c.es) THEN Len(c.es) ELSE 0
RECURSIVE Outcomes(_, _, _)
\* s: set of [v, ok]; todo: set of indices into e.want
Outcomes(e, s, todo) ==
  IF todo = {} THEN s
  ELSE LET i == CHOOSE i \in todo : \A k \in todo : Phase(e.accs[e.want[i].a]) <= Phase(e.accs[e.want[k].a])
           w == e.want[i]
           c == e.accs[w.a]
           one(o) == IF ~o.ok THEN {o}
                     ELSE IF ~Fits(e.root, o.v, c.es, w.val) THEN {[v |-> <<>>, ok |-> FALSE]}
                     ELSE {[v |-> x, ok |-> TRUE] : x \in
                            IF ~HasMulti(c.es) /\ ~LastIsSize(c.es) /\ w.val = <<>> THEN {o.v, Touch(e.root, o.v, c.es)}
                            ELSE Written(e.root, o.v, c.es, w.val)}
       IN  Outcomes(e, UNION {one(o) : o \in s}, todo \ {i})
OkListen(e) ==
  /\ Known(e) /\ Available(e)
  /\ IF BadSlots(e) THEN e.status = "ERROR" /\ e.after = e.v
     ELSE LET os == Outcomes(e, {[v |-> e.v, ok |-> TRUE]}, {i \in DOMAIN e.want : e.want[i].a # 0})
          IN  IF e.status = "OK" THEN [v |-> e.after, ok |-> TRUE] \in os
              ELSE e.status = "RUN" /\ \E o \in os : ~o.ok

Ok(e) == CASE e.op = "decl" -> OkDecl(e)
           [] e.op = "get" -> OkGet(e)
           [] e.op = "put" -> OkPut(e)
           [] e.op = "compile" -> e.ok
           [] e.op = "render" -> e.err = ""
           [] e.op = "load" -> OkLoad(e)
           [] e.op = "shards" -> OkShards(e)
           [] e.op = "listen" -> OkListen(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
