----------------------------- MODULE MC_Filter -------------------------------
(* Laws of declarations, for every tree of filters and merges over a pool of   *)
(* leaves: a filter keeps a sub-bag, filters commute, narrowing by both equals *)
(* narrowing by the intersection, merging is associative and filters           *)
(* distribute over it, renaming only depends on the effective name.            *)
EXTENDS Filter
CONSTANT Depth

R(f) == [k |-> "reg", f |-> f]
Leaf(es, name) == [k |-> "pp", es |-> es, lead |-> <<>>, name |-> name, ty |-> <<>>]
Fld(f, k, t, r) == [f |-> f, full |-> Cp("m." \o f), k |-> k, t |-> t, r |-> r, ext |-> FALSE]
PB == [msgs |-> [M |-> <<Fld("a", "int32", "", FALSE), Fld("n", "msg", "N", FALSE), Fld("r", "msg", "N", TRUE), Fld("m", "map", "", TRUE)>>,
                 N |-> <<Fld("s", "string", "", FALSE), Fld("xs", "int32", "", TRUE), Fld("up", "msg", "M", FALSE), Fld("me", "msg", "N", TRUE)>>],
       exts |-> << >>]
Desc(ty, pol) == [k |-> "desc", type |-> ty, pb |-> PB, mods |-> <<"main">>, pre |-> <<>>, pretext |-> <<>>, skip |-> <<>>,
                  policy |-> pol, text |-> Cp("T"), cls |-> Cp("auto"), broken |-> ""]
Leaf0 == {Leaf(<<R("a")>>, <<>>), Leaf(<<R("a")>>, Cp("z")), Leaf(<<R("n"), [k |-> "rep", f |-> "xs"]>>, <<>>),
          Leaf(<<[k |-> "size", m |-> [k |-> "rep", f |-> "r"]]>>, <<>>), Desc("M", "default"), Desc("N", "double_underscore")}
Sets == {<<Cp("/a")>>, <<Cp("z"), Cp("/n/s")>>, <<Cp("/r/@size"), Cp("/a"), Cp("s")>>}
ByName(t, ns) == [k |-> "byname", mode |-> "set", names |-> ns, arg |-> t]
Models(t, i, o, p) == [k |-> "models", arg |-> t, strip |-> p, infos |-> << [i |-> i, o |-> o, label |-> <<>>] >>]
Merge(args) == [k |-> "merge", args |-> args]

VARIABLES t, u, cfg, n
Init == /\ t \in Leaf0 /\ u \in Leaf0 /\ n = 0
        /\ cfg \in [io : {Cp("auto")}, arr : {"", "DenseArray"}, mut : BOOLEAN]
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<cfg, u>>
        /\ \/ \E s \in Sets : t' = ByName(t, s)
           \/ \E a, b \in Sets : t' = Models(t, a, b, <<>>)
           \/ \E s \in Sets : t' = Models(t, Map(LAMBDA x : Cp("p") \o x, s), s, Cp("p"))
           \/ \E x \in Leaf0 : t' = Merge(<<t, x>>)

D(x) == Denote(x, cfg).bag
St(x) == Denote(x, cfg).st
Sub(a, b) == \A i \in DOMAIN a : Count(a, a[i]) <= Count(b, a[i])
Inter(a, b) == SelectSeq(a, LAMBDA x : x \in Range1(b))
Laws ==
  /\ \A s \in Sets :
       /\ Sub(D(ByName(t, s)), D(t)) /\ St(ByName(t, s)) = St(t)
       /\ D(ByName(ByName(t, s), s)) = D(ByName(t, s))
       /\ D(Models(t, s, s, <<>>)) = D(ByName(t, s))
       /\ D(ByName(Merge(<<t, u>>), s)) = D(Merge(<<ByName(t, s), ByName(u, s)>>))
       /\ \A w \in Sets : /\ D(ByName(ByName(t, s), w)) = D(ByName(ByName(t, w), s))
                          /\ D(ByName(ByName(t, s), w)) = D(ByName(t, Inter(s, w)))
                          /\ D(Models(t, s, w, <<>>)) = D(ByName(t, IF cfg.mut THEN w ELSE s))
       \* a prefix is removed once from the names that have it
       /\ D(Models(t, Map(LAMBDA x : Cp("p/") \o x, s), Map(LAMBDA x : Cp("p/") \o x, s), Cp("p/"))) = D(ByName(t, s))
       /\ D(Models(t, s, s, Cp("p/"))) = <<>>
  /\ D(Merge(<<t>>)) = D(t) /\ SameBag(D(Merge(<<t, u>>)), D(Merge(<<u, t>>)))
  /\ D(Merge(<<Merge(<<t, u>>), t>>)) = D(Merge(<<t, Merge(<<u, t>>)>>))
  \* every field of a message is described by its own path and default name
  /\ \A i \in DOMAIN D(t) : D(t)[i].n # <<>>
==============================================================================
