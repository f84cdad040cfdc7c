---------------------------- MODULE Trace_Naming -----------------------------
EXTENDS TraceBase, Naming

\* ------------------------------------------------ C++ naming library
RECURSIVE Steps(_)
Steps(ss) == IF ss = <<>> THEN <<>>
             ELSE (CASE Head(ss).k = "keys" -> <<KeySeg>>
                     [] Head(ss).k = "values" -> <<ValueSeg>>
                     [] OTHER -> Head(ss).s) \o Steps(Tail(ss))
Final(f) == CASE f.k = "table" -> <<>>
              [] f.k \in {"col", "colname", "colpath"} -> f.s
              [] f.k = "size" -> (IF f.s[1].f = <<>> THEN <<>> ELSE <<Seg(f.s[1].f, FALSE)>>) \o <<SizeSeg>>
              [] f.k = "sizepath" -> f.s \o <<SizeSeg>>

OkPath(e) ==
  LET p == Steps(e.steps) \o Final(e.fin) IN
  /\ e.segs = p
  /\ e.full = Full(p, FALSE) /\ e.fullx = Full(p, TRUE)
  /\ \A n \in DOMAIN e.pol : e.pol[n] = Policy(n, p)
  /\ IF e.fin.k = "table"
     THEN /\ e.hasparent = (p # <<>>)
          /\ p # <<>> => e.parent = TableParent(p)
     ELSE e.parent = IndexParent(p)
  /\ e.rmok = (Len(e.prefix) <= Len(p) /\ SubSeq(p, 1, Len(e.prefix)) = e.prefix)
  /\ e.rmok => e.rm = SubSeq(p, Len(e.prefix) + 1, Len(p))
  /\ PlainPath(p) => e.idok /\ e.id = p
  /\ e.cmp = <<p = e.other, p # e.other, PathLt(p, e.other), PathLt(e.other, p), TRUE>>
  /\ e.hash

OkParse(e) ==
  /\ e.tok = ParsableId(e.t) /\ e.cok = e.tok
  /\ e.tok => e.tp = ParseId(e.t) /\ e.cp = e.tp

OkAcc(e) ==
  /\ e.field = e.f /\ e.map = MapAccess(e.f, e.key) /\ e.arr = ArrayAccess(e.f, e.i)
  /\ e.ext = ExtPrefix \o e.key
  /\ e.isext = <<IsExt(e.f), TRUE>>

PolicyNames == {Cp(x) : x \in {"default", "double_underscore", "single_underscore", "leaf_only", "protopath_id", "googlesql"}}

\* ------------------------------------------------ generated code names
QuoteC == 34
HdrText(h) == IF Len(h) >= 1 /\ ((h[1] = 60 /\ h[Len(h)] = 62) \/ (h[1] = QuoteC /\ h[Len(h)] = QuoteC))
              THEN h ELSE <<QuoteC>> \o h \o <<QuoteC>>
Line(h) == Cp("#include ") \o HdrText(h)
OkInc(e) ==
  LET a == Line(e.a)
      b == Line(e.b) IN
  /\ e.line = a /\ e.str = a
  /\ e.eq = (a = b) /\ e.ne = (a # b) /\ e.hash /\ ~e.o
  /\ e.lt = Lt(a, b) /\ e.gt = Lt(b, a)
  /\ e.n = IF a = b THEN 1 ELSE 2

\* '//pkg/dir:target' -> PKG_DIR_TARGET_H_
OkGuard(e) ==
  /\ IsIdentifier(e.out)
  /\ e.out = ToUpper(Replace(Replace(SubSeq(e.t, 3, Len(e.t)), Slash, Cp("_")), Cp(":"), Cp("_"))) \o Cp("_H_")

Colons == Cp("::")
Bare(ns) == IF StartsWith(ns, Colons) THEN SubSeq(ns, 3, Len(ns)) ELSE ns
Shown(ns, name) ==
  [ns |-> ns, name |-> name,
   full |-> IF ns = <<>> THEN name ELSE Colons \o ns \o Colons \o name,
   open |-> IF ns = <<>> THEN <<>> ELSE Cp("namespace ") \o ns \o Cp(" {"),
   close |-> IF ns = <<>> THEN <<>> ELSE Cp("}  // namespace ") \o ns]
OkCppName(e) ==
  IF HasText(e.name, Cp(":")) THEN e.err = "ValueError"
  ELSE LET v == Shown(Bare(e.ns), e.name) IN
       e.err = "" /\ e.v = v /\ e.again = v /\ e.bare = v

Distinct(s) == Cardinality(Range1(s)) = Len(s)
AllIds(s) == \A i \in 1..Len(s) : IsIdentifier(s[i])
OkOpNames(e) ==
  /\ AllIds(e.out) /\ e.again = e.out
  /\ Distinct(e.names) => Distinct(Append(e.out, e.q))
  /\ IsIdentifier(e.q)
OkLoaders(e) ==
  /\ AllIds(e.out) /\ AllIds(e.q)
  /\ \A i, j \in 1..Len(e.loaders) :
       LET a == e.loaders[i]
           b == e.loaders[j] IN
       /\ (Bare(a.ns) = Bare(b.ns) /\ a.name = b.name) <=> (e.q[i] = e.q[j])
       /\ (e.out[i] = e.out[j]) <=> (Shown(Bare(a.ns), a.name).full \o Colons \o a.acc
                                     = Shown(Bare(b.ns), b.name).full \o Colons \o b.acc)

DropFirst(t) == SubSeq(t, 2, Len(t))
OkModify(e) ==
  /\ DOMAIN e.out = {"default", "single_underscore", "double_underscore", "leaf_only"}
  /\ e.out["default"] = e.t
  /\ e.out["single_underscore"] = Replace(DropFirst(e.t), Slash, Cp("_"))
  /\ e.out["double_underscore"] = Replace(DropFirst(e.t), Slash, Cp("__"))
  /\ e.out["leaf_only"] = LeafOnly(e.t)

\* ------------------------------------------------ Python table names
PySeg(s) == CASE s.k = "map" -> MapAccess(s.s[1], s.s[2])
              [] s.k = "arr" -> ArrayAccess(s.s[1], s.i)
              [] s.k = "ext" -> ExtPrefix \o s.s[1]
              [] s.k = "keys" -> Cp("@key")
              [] s.k = "values" -> Cp("@value")
              [] OTHER -> s.s[1]
PyPath(e) ==
  LET root == IF e.root = <<>> THEN <<>> ELSE <<e.root>>
      st == Map(PySeg, e.steps)
      fin == CASE e.fin.k = "table" -> <<>>
               [] e.fin.k = "col" -> <<e.fin.s[1]>>
               [] e.fin.k = "size" -> (IF e.fin.s = <<>> THEN <<>> ELSE <<e.fin.s[1]>>) \o <<Cp("@size")>> IN
  root \o st \o fin
OkPyTable(e) ==
  LET p == PyPath(e)
      want == Slash \o Join(p, Slash) IN
  /\ e.out = want /\ e.repr = want /\ e.name = want /\ e.eq /\ ~e.eqx

\* ------------------------------------------------ default names of paths
\* els: sequence of [k, f, key, i] parsed by the generator of the text p.
ElName(x) ==
  CASE x.k \in {"reg", "struct", "slice"} -> <<x.f>>
    [] x.k = "arr" -> <<ArrayAccess(x.f, x.i)>>
    [] x.k = "map" -> <<MapAccess(x.f, x.key)>>
    [] x.k = "wild" -> <<MapAccess(x.f, Cp("%s"))>>
    [] x.k = "ext" -> <<ExtPrefix \o x.f>>
    [] x.k = "keys" -> <<x.f, Cp("@key")>>
    [] x.k = "values" -> <<x.f, Cp("@value")>>
    [] x.k = "size" -> <<x.f, Cp("@size")>>
    [] x.k = "osize" -> <<Cp("@size")>>
    [] x.k \in {"deref", "addr", "orig"} -> <<>>
RECURSIVE ElNames(_)
ElNames(els) == IF els = <<>> THEN <<>> ELSE ElName(Head(els)) \o ElNames(Tail(els))
ElText(x) ==
  CASE x.k = "reg" -> x.f
    [] x.k = "struct" -> Cp("&::") \o x.f
    [] x.k = "slice" -> x.f \o Cp("[:]")
    [] x.k = "arr" -> ArrayAccess(x.f, x.i)
    [] x.k = "map" -> x.f \o Cp("[") \o x.q \o x.key \o x.q \o Cp("]")
    [] x.k = "wild" -> x.f \o Cp("[*]")
    [] x.k = "ext" -> ExtPrefix \o x.f
    [] x.k = "keys" -> x.f \o Cp("[:]") \o x.q \o Cp("@key")
    [] x.k = "values" -> x.f \o Cp("[:]") \o x.q \o Cp("@value")
    [] x.k = "size" -> Cp("count(") \o x.f \o Cp("[:])")
    [] x.k = "osize" -> Cp("count([:])")
    [] x.k = "deref" -> Cp("*")
    [] x.k = "addr" -> Cp("&")
    [] x.k = "orig" -> Cp("[:]")
IsMulti(x) == x.k \in {"slice", "keys", "values", "orig"}
Wilds(els) == Cardinality({i \in 1..Len(els) : els[i].k = "wild"})
PathOk(e) ==
  /\ Wilds(e.els) = (IF e.wild THEN 1 ELSE 0)
  /\ \A i \in 1..(Len(e.els) - 1) : e.els[i].k \notin {"size", "osize"}
  /\ e.wild => e.els[Len(e.els)].k \notin {"size", "osize"}
OkDName(e) ==
  LET text == e.lead \o Join(Map(ElText, e.els), Slash) IN
  /\ e.p = text   \* the command is well formed
  /\ IF ~PathOk(e) THEN e.err = "ValueError"
     ELSE /\ e.err = ""
          /\ e.out = Slash \o Join(ElNames(e.els), Slash)
          /\ e.size = (e.els[Len(e.els)].k \in {"size", "osize"})
          /\ e.single = (\A i \in 1..Len(e.els) : ~IsMulti(e.els[i]))
          /\ e.pp = e.p

Ok(e) == CASE e.op = "path" -> OkPath(e)
           [] e.op = "parse" -> OkParse(e)
           [] e.op = "acc" -> OkAcc(e)
           [] e.op = "policy" -> e.ok = (e.n \in PolicyNames)
           [] e.op = "inc" -> OkInc(e)
           [] e.op = "guard" -> OkGuard(e)
           [] e.op = "cppname" -> OkCppName(e)
           [] e.op = "opnames" -> OkOpNames(e)
           [] e.op = "loaders" -> OkLoaders(e)
           [] e.op = "modify" -> OkModify(e)
           [] e.op = "pytable" -> OkPyTable(e)
           [] e.op = "dname" -> OkDName(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
==============================================================================
