------------------------------- MODULE Naming --------------------------------
(* C13. Table and column paths are sequences of segments [f, ix] (field text, *)
(* is it an index step); every name is a function of that sequence.           *)
EXTENDS Text

Slash == <<47>>
Seg(f, ix) == [f |-> f, ix |-> ix]
SizeSeg == Seg(Cp("@size"), FALSE)
KeySeg == Seg(Cp("@key"), FALSE)
ValueSeg == Seg(Cp("@value"), FALSE)
Marker == Cp("[:]")

Full(p, marks) == Cat([i \in 1..Len(p) |-> Slash \o p[i].f \o (IF marks /\ p[i].ix THEN Marker ELSE <<>>)])

\* The closest index step above; a table does not count its own index step.
RECURSIVE IndexParent(_)
IndexParent(p) == IF p = <<>> \/ p[Len(p)].ix THEN p ELSE IndexParent(SubSeq(p, 1, Len(p) - 1))
TableParent(p) == IF p[Len(p)].ix THEN IndexParent(SubSeq(p, 1, Len(p) - 1)) ELSE IndexParent(p)

ExtPrefix == Cp("Ext::")
IsExt(f) == StartsWith(f, ExtPrefix)
ExtName(f) == SubSeq(f, 6, Len(f))

Underscores(p) ==
  Join([i \in 1..Len(p) |->
        LET g == Replace(p[i].f, Slash, Cp("__")) IN
        IF IsExt(g) THEN Replace(ToLower(ExtName(g)), Cp("."), Cp("_")) ELSE g], Cp("__"))
Sql(p) == Join([i \in 1..Len(p) |-> IF IsExt(p[i].f) THEN Cp("(") \o ExtName(p[i].f) \o Cp(")") ELSE p[i].f], Cp("."))
Single(full) == IF full = <<>> THEN <<>> ELSE Replace(SubSeq(full, 2, Len(full)), Slash, Cp("_"))
LastPart(full) == LET S == Split(full, Slash) IN S[Len(S)]
LeafOnly(full) == IF EndsWith(full, Cp("@size")) THEN full ELSE LastPart(full)

Policy(n, p) ==
  CASE n = "default" -> Full(p, FALSE)
    [] n = "double_underscore" -> Underscores(p)
    [] n = "single_underscore" -> Single(Full(p, FALSE))
    [] n = "leaf_only" -> LeafOnly(Full(p, FALSE))
    [] n = "protopath_id" -> Full(p, TRUE)
    [] n = "googlesql" -> Sql(p)

\* Reading an id back: segments between slashes, a trailing slash is ignored.
SegOf(t) == IF EndsWith(t, Marker) THEN Seg(SubSeq(t, 1, Len(t) - 3), TRUE) ELSE Seg(t, FALSE)
ParseId(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET parts == Split(SubSeq(t, 2, Len(t)), Slash)
           live == IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts) - 1) ELSE parts IN
       Map(SegOf, live)
ParsableId(t) == t = <<>> \/ t[1] = 47

SegLt(a, b) == Lt(a.f, b.f) \/ (a.f = b.f /\ ~a.ix /\ b.ix)
PathLt(a, b) ==
  LET m == MinLen(a, b)
      D == {i \in 1..m : a[i] # b[i]} IN
  IF D = {} THEN Len(a) < Len(b)
  ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN SegLt(a[i], b[i])

\* Sound names: plain field text, so that a name can be read back.
Plain(f) == f # <<>> /\ ~HasText(f, Slash) /\ ~EndsWith(f, Marker)
PlainPath(p) == \A i \in 1..Len(p) : Plain(p[i].f)

\* ---- names of proto path elements
MapAccess(f, key) == f \o Cp("[\"") \o key \o Cp("\"]")
ArrayAccess(f, i) == f \o Cp("[") \o Dec(i) \o Cp("]")
==============================================================================
