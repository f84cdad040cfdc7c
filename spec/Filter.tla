------------------------------- MODULE Filter --------------------------------
(* C16. Declarations of accessors: a tree whose leaves are paths, proto paths, *)
(* wildcard paths and whole message types, and whose inner nodes merge or      *)
(* filter by name.  For a configuration [io, arr, mut] a tree denotes a bag of *)
(* accessors [g, n, p, ty, lam, io]: name given, effective name, proto path,   *)
(* value type, lambda (plain paths only) and input type.                       *)
EXTENDS PathName

(* ------------------------------------------------------------- path texts *)
Bracket(t) == <<91>> \o t \o <<93>>
All == Cp("[:]")
El(e) ==
  CASE e.k = "reg" -> Cp(e.f)
    [] e.k = "ext" -> Cp("Ext::") \o Cp(e.f)
    [] e.k = "st" -> Cp("&::") \o Cp(e.f)
    [] e.k = "deref" -> Cp("*")
    [] e.k = "addr" -> Cp("&")
    [] e.k = "idx" -> Cp(e.f) \o Bracket(Dec(e.i))
    [] e.k = "mapk" -> Cp(e.f) \o Bracket(<<34>> \o e.name \o <<34>>)
    [] e.k = "wild" -> Cp(e.f) \o Bracket(<<42>>)
    [] e.k = "root" -> All
    [] e.k = "rep" -> Cp(e.f) \o All
    [] e.k = "keys" -> Cp(e.f) \o All \o Cp("/@key")
    [] e.k = "vals" -> Cp(e.f) \o All \o Cp("/@value")
    [] e.k = "size" -> Cp("count(") \o (IF e.m.k = "root" THEN <<>> ELSE Cp(e.m.f)) \o All \o <<41>>
    [] e.k = "bad" -> Cp(e.f)
PathText(es) == Join(Map(El, es), <<47>>)

Multi(e) == e.k \in {"rep", "root", "keys", "vals"}
HasMulti(es) == \E i \in DOMAIN es : Multi(es[i])
IsSize(es) == es # <<>> /\ es[Len(es)].k = "size"
EndsMulti(es) == es # <<>> /\ Multi(es[Len(es)])
Wilds(es) == Cardinality({i \in DOMAIN es : es[i].k = "wild"})

WellFormed(es) ==
  /\ es # <<>>
  /\ \A i \in DOMAIN es : es[i].k # "bad" /\ (es[i].k = "size" => i = Len(es))

SizeType == Cp("::arolla::proto::arolla_size_t")
ShapeType == Cp("::arolla::DenseArrayShape")

(* -------------------------------------------------- one accessor per path *)
\* "yes": an accessor; "no": rejected; "any": not settled by the path language.
Readable(es, cfg, wild) ==
  IF ~WellFormed(es) THEN "no"
  ELSE IF wild # Wilds(es) THEN "no"
  ELSE IF wild = 1 /\ IsSize(es) THEN "no"
  ELSE IF (HasMulti(es) \/ IsSize(es)) /\ cfg.arr = "" THEN "no"
  ELSE "yes"
Writable(es, ty, cfg) ==
  IF IsSize(es) /\ ~HasMulti(es) /\ cfg.arr = "" /\ ty # <<>> THEN "any"
  ELSE IF Readable(es, cfg, 0) # "yes" THEN "no"
  ELSE IF EndsMulti(es) THEN "no"
  ELSE IF \E i \in DOMAIN es : es[i].k = "keys" THEN "no"
  ELSE IF es[Len(es)].k \in {"addr", "deref", "idx"} THEN "any"
  ELSE IF IsSize(es) /\ es[Len(es)].m.k = "root" THEN "any"
  ELSE IF \E i \in DOMAIN es : es[i].k \in {"addr", "root"} THEN "any"
  ELSE IF IsSize(es) /\ HasMulti(es) THEN "yes"
  ELSE "yes"
ReadType(es, ty) ==
  IF ~IsSize(es) THEN ty ELSE IF ~HasMulti(es) THEN <<>> ELSE IF ty # <<>> THEN ty ELSE SizeType
WriteType(es, ty) ==
  IF ty # <<>> \/ ~IsSize(es) THEN ty ELSE IF HasMulti(es) THEN SizeType ELSE ShapeType
TypeIn(es, ty, cfg) == IF cfg.mut THEN WriteType(es, ty) ELSE ReadType(es, ty)

Acc(g, n, p, ty, io) == [g |-> g, n |-> n, p |-> p, ty |-> ty, lam |-> <<>>, io |-> io]
Res(st, bag) == [st |-> st, bag |-> bag]
Worst(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "any" \in {a, b} THEN "any" ELSE "yes"

PathLambda(path) == Cp("[](const auto& input) { return input") \o path \o Cp("; }")
Pretty(lines) == Join(Map(RStrip, SelectSeq(lines, LAMBDA x : ~Blank(x))), <<NL>>)

(* ------------------------------------------------------ a message's fields *)
\* pb.msgs[type] is a sequence of fields [f, full, k, t, r]; pb.exts a set of
\* extensions [f (full name), of, k, t, r, mod].
LetUnderscore(t, sep) == Replace(SubSeq(t, 2, Len(t)), <<47>>, sep)
Policy(pol, t) ==
  CASE pol = "default" -> t
    [] pol = "single_underscore" -> LetUnderscore(t, Cp("_"))
    [] pol = "double_underscore" -> LetUnderscore(t, Cp("__"))
    [] pol = "leaf_only" -> IF EndsWith(t, Cp("@size")) THEN t
                            ELSE LET S == Split(t, <<47>>) IN S[Len(S)]

Named(d, es, txt, ty) == LET n == Policy(d.policy, NameOf(es)) IN Acc(n, n, txt, ty, d.cls)
Under(txt, t) == IF txt = <<>> THEN t ELSE txt \o <<47>> \o t

RECURSIVE FieldsOf(_, _, _, _, _, _), OneField(_, _, _, _, _, _, _)
\* es, txt: the path to the message; seen: the types on the way
OneField(d, cfg, type, es, txt, seen, x) ==
  LET rep == x.r
      step == IF x.ext THEN [k |-> "ext", f |-> x.f] ELSE IF rep THEN [k |-> "rep", f |-> x.f] ELSE [k |-> "reg", f |-> x.f]
      sstep == [k |-> "size", m |-> [k |-> "rep", f |-> x.f]]
      es2 == Append(es, step)
      txt2 == Under(txt, El(step))
      size == IF rep /\ (~cfg.mut \/ x.k = "msg")
              THEN <<Named(d, Append(es, sstep), Under(txt, El(sstep)), TypeIn(Append(es, sstep), <<>>, cfg))>>
              ELSE <<>>
      ty == IF x.k = "string" THEN d.text ELSE <<>>
  IN  IF \/ x.full \in Range1(d.skip) \/ x.k = "map"
         \/ (rep /\ cfg.arr = "") \/ (rep /\ x.ext)
      THEN <<>>
      ELSE IF x.k = "msg"
      THEN size \o (IF x.t \in seen \cup {type} THEN <<>>
                    ELSE FieldsOf(d, cfg, x.t, es2, txt2, seen \cup {type}))
      ELSE size \o (IF cfg.mut /\ rep THEN <<>> ELSE <<Named(d, es2, txt2, ty)>>)
FieldsOf(d, cfg, type, es, txt, seen) ==
  LET xs == d.pb.msgs[type] \o SelectSeq(d.pb.exts, LAMBDA x : x.of = type /\ x.mod \in Range1(d.mods)) IN
  Cat([i \in DOMAIN xs |-> OneField(d, cfg, type, es, txt, seen, xs[i])])

\* No field of the message is reachable: through many elements without arrays.
Reachable(d, cfg, bag) ==
  IF bag = <<>> THEN "yes"
  ELSE IF HasMulti(d.pre) /\ cfg.arr = "" THEN "no"
  ELSE IF cfg.mut /\ \E i \in DOMAIN d.pre : d.pre[i].k \in {"root", "addr"} THEN "any"
  ELSE "yes"
Described(d, cfg) ==
  LET bag == FieldsOf(d, cfg, d.type, d.pre, d.pretext, {}) IN
  IF d.broken # "" THEN Res("no", <<>>)
  \* names given by a lossy policy may clash
  ELSE IF ~NoDup([i \in DOMAIN bag |-> bag[i].n]) THEN Res(Worst("any", Reachable(d, cfg, bag)), bag)
  ELSE Res(Reachable(d, cfg, bag), bag)

(* ------------------------------------------------------------ the denotation *)
\* The first prefix is removed, names without it are dropped.
Stripped(names, prefix) ==
  {SubSeq(n, Len(prefix) + 1, Len(n)) : n \in {x \in names : StartsWith(x, prefix)}}
Wanted(d, cfg) ==
  Stripped(UNION {Range1(IF cfg.mut THEN d.infos[i].o ELSE d.infos[i].i) : i \in DOMAIN d.infos}, d.strip)
Allowed(d, n) ==
  IF d.mode = "prefix" THEN StartsWith(n, d.names[1]) ELSE n \in Range1(d.names)

RECURSIVE Denote(_, _), MergeOf(_, _)
MergeOf(args, cfg) ==
  IF args = <<>> THEN Res("yes", <<>>)
  ELSE LET a == Denote(args[1], cfg)
           b == MergeOf(Tail(args), cfg)
       IN  Res(Worst(a.st, b.st), a.bag \o b.bag)
Keep(r, Test(_)) == Res(r.st, SelectSeq(r.bag, LAMBDA a : Test(a.n)))
Denote(d, cfg) ==
  CASE d.k = "path" ->
         Res("yes", <<[g |-> d.name, n |-> d.name, p |-> <<>>, ty |-> <<>>,
                       lam |-> Pretty(Split(PathLambda(d.path), <<NL>>)), io |-> <<>>]>>)
    [] d.k = "pp" ->
         Res(IF cfg.mut THEN Writable(d.es, d.ty, cfg) ELSE Readable(d.es, cfg, 0),
             IF ~WellFormed(d.es) THEN <<>>
             ELSE <<Acc(d.name, IF d.name # <<>> THEN d.name ELSE NameOf(d.es), d.lead \o PathText(d.es), TypeIn(d.es, d.ty, cfg), cfg.io)>>)
    [] d.k = "wild" ->
         IF cfg.mut \/ Readable(d.es, cfg, 1) = "no" THEN Res("no", <<>>)
         ELSE LET n == IF d.name # <<>> THEN d.name ELSE NameOf(d.es)
              IN Res("yes", <<Acc(n, n, d.lead \o PathText(d.es), d.ty, cfg.io)>>)
    [] d.k = "desc" -> Described(d, cfg)
    [] d.k = "merge" -> MergeOf(d.args, cfg)
    [] d.k = "byname" -> Keep(Denote(d.arg, cfg), LAMBDA n : Allowed(d, n))
    [] d.k = "models" -> Keep(Denote(d.arg, cfg), LAMBDA n : n \in Wanted(d, cfg))

(* ------------------------------------------------- what a declaration needs *)
RECURSIVE Leaves(_)
Leaves(d) == CASE d.k = "merge" -> Cat(Map(Leaves, d.args))
               [] d.k \in {"byname", "models"} -> Leaves(d.arg)
               [] OTHER -> <<d>>
RECURSIVE DataOf(_)
DataOf(d) == CASE d.k = "merge" -> UNION {DataOf(d.args[i]) : i \in DOMAIN d.args}
               [] d.k = "byname" -> DataOf(d.arg)
               [] d.k = "models" -> DataOf(d.arg) \cup {d.infos[i].label : i \in DOMAIN d.infos}
               [] OTHER -> {}
DepsOf(d) == UNION {IF x.k = "desc" THEN Range1(x.deps) ELSE {} : x \in Range1(Leaves(d))}

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
==============================================================================
