------------------------------- MODULE MC_Ops -------------------------------
(* Laws of the declaration algebra and of the targets it is lowered to, for  *)
(* all small declarations; a lowering that drops, repeats or regroups an      *)
(* overload is rejected by OkOps.                                             *)
EXTENDS Ops

T == {B("float"), B(Unit), [k |-> "o", x |-> B("float")], [k |-> "n", x |-> B("float")], [k |-> "n", x |-> [k |-> "o", x |-> B(Unit)]]}
T2 == {B("float"), [k |-> "n", x |-> B("float")]}
ArgLists == {<<>>} \cup {<<a>> : a \in T} \cup {<<a, b2>> : a \in T2, b2 \in T2}
Ov(args, g) == [f |-> "ov", cls |-> "Op", args |-> args, hdrs |-> <<"a.h">>, deps |-> <<":a">>, group |-> g, fids |-> <<>>]
Base == {Ov(<<a>>, g) : a \in ArgLists, g \in {"", "g"}} \cup {Ov(<<<<B("float")>>, <<B("int")>>>>, ""), Ov(<<<<B("float")>>, <<B("int"), B("int")>>>>, "g")}
Exprs == Base \cup {[f |-> w, lifters |-> ls, x |-> e] : w \in {"lift", "with"}, ls \in {<<"lift_to_optional">>, <<"lift_to_dense_array">>, <<"lift_to_optional", "lift_to_array">>}, e \in Base}
         \cup {[f |-> "cat", x |-> <<Ov(<<<<B("float")>>>>, ""), Ov(<<<<B("double")>>>>, "g"), Ov(<<<<B("bool")>>>>, "")>>]}

\* An abstract lowering.
Digit(i) == SubSeq("0123456789", i, i)
Lower(e) ==
  LET ovs == Overloads("p", e)
      gs == Groups(ovs)
      lib(nm, os, tags, always) == [name |-> nm, srcs |-> <<nm \o ".cc">>, deps |-> <<"//arolla/qexpr", "//arolla/qtype", "//arolla/util">> \o UnionSeq(os, Deps),
                            always |-> always, testonly |-> FALSE, tags |-> tags, copts |-> Default(<<>>), vis |-> <<>>]
      src(nm, os, tags, kind, ind) == [name |-> nm \o "_cc", out |-> nm \o ".cc", tmpl |-> "", testonly |-> FALSE, tags |-> tags,
         ctx |-> [kind |-> kind, indiv |-> ind, op |-> "a.b", target |-> "//p:" \o nm, hdrs |-> UnionSeq(os, Hdrs), ovs |-> MapS(Brief, os)]]
      inm(i) == "op_" \o Digit(i)
      gnm(k) == "op_" \o gs[k]
      metaOvs == [i \in 1..Len(ovs) |-> [op |-> "a.b", cls |-> ovs[i].cls, hdrs |-> ovs[i].hdrs, deps |-> ovs[i].deps, args |-> MapS(Decayed, ovs[i].args),
                                        fids |-> ovs[i].fids, target |-> "//p:" \o inm(i)]] IN
  [kind |-> "ops", pkg |-> "p", name |-> "op", opname |-> "a.b", testonly |-> FALSE, tags |-> <<>>, copts |-> <<>>, vis |-> <<>>, other |-> 0,
   libs |-> [i \in 1..Len(ovs) |-> lib(inm(i), <<ovs[i]>>, <<"notap">>, TRUE)] \o [k \in 1..Len(gs) |-> lib(gnm(k), OfGroup(ovs, gs[k]), <<"notap">>, TRUE)]
            \o <<lib("op_metadata", ovs, <<>>, TRUE),
                 [lib("op", <<>>, <<>>, TRUE) EXCEPT !.srcs = <<>>, !.deps = [k \in 1..Len(gs) |-> ":" \o gnm(k)]]>>,
   rend |-> [i \in 1..Len(ovs) |-> src(inm(i), <<ovs[i]>>, <<"notap">>, "reg", TRUE)] \o [k \in 1..Len(gs) |-> src(gnm(k), OfGroup(ovs, gs[k]), <<"notap">>, "reg", FALSE)]
            \o <<[src("op_metadata", ovs, <<>>, "meta", FALSE) EXCEPT !.ctx.ovs = metaOvs]>>]

VARIABLES e, mut
vars == <<e, mut>>
Init == e \in Exprs /\ mut = "none"
Distort == mut = "none" /\ mut' \in {"dropgroup", "swapargs", "dupindiv", "noalways", "mainmiss"} /\ UNCHANGED e
Next == Distort
Spec == Init /\ [][Next]_vars

D == Lower(e)
Ovs == Overloads("p", e)
ArgsDistinct == LET os == Ovs IN \A i, j \in 1..Len(os) : i # j => os[i] # os[j]
\* The transitive registrations of the main target: each overload exactly once.
Registered(d) == Flat([k \in 1..Len(d.rend) |->
  IF d.rend[k].ctx.kind = "reg" /\ \E i \in 1..Len(d.libs) : d.rend[k].out \in Rng(d.libs[i].srcs) /\ (":" \o d.libs[i].name) \in Rng(d.libs[Len(d.libs)].deps)
  THEN d.rend[k].ctx.ovs ELSE <<>>])
Mutated ==
  LET os == Ovs
      n == Len(os)
      m == Len(Groups(os))
      d0 == D IN
  CASE mut = "dropgroup" -> [d0 EXCEPT !.rend[n + m].ctx.ovs = Tail(@)]
    [] mut = "swapargs" -> [d0 EXCEPT !.rend[1].ctx.ovs[1].cls = "Other"]
    [] mut = "dupindiv" -> [d0 EXCEPT !.rend[1].ctx.indiv = FALSE]
    [] mut = "noalways" -> [d0 EXCEPT !.libs[n + 1].always = FALSE]
    [] mut = "mainmiss" -> [d0 EXCEPT !.libs[Len(d0.libs)].deps = Tail(@)]

Accepts == (mut = "none" /\ ArgsDistinct) => OkOps(D, Ovs)
EachOnce == (mut = "none" /\ ArgsDistinct) =>
  LET os == Ovs
      d == D
      reg == Registered(d) IN
  /\ Len(reg) = Len(os)
  /\ \A i \in 1..Len(os) : Cardinality({k \in 1..Len(reg) : reg[k] = Brief(os[i])}) = 1
Rejects == mut # "none" => ~OkOps(Mutated, Ovs)
Laws ==
  /\ \A t \in T : ShowOpt([k |-> "o", x |-> t]) = ShowOpt(t) /\ ShowOpt([k |-> "n", x |-> t]) = ShowOpt(t)
  /\ \A t \in T : ~Tagged(Decayed(Show(t))) /\ (Liftable(t) => Decayed(Show(t)) = Show(t))
  /\ e.f = "with" => LET bs == Denote("p", e.x) IN
       /\ SubSeq(Denote("p", e), 1, Len(bs)) = bs
       /\ Len(Denote("p", e)) = Len(bs) * (1 + Len(e.lifters))
  \* a lifted overload has the arity of its origin and keeps tagged arguments.
  /\ e.f = "lift" => LET os == Denote("p", e) bs == Denote("p", e.x) IN
       \A i \in 1..Len(os) : LET bb == bs[((i - 1) % Len(bs)) + 1] IN
         /\ Len(os[i].args) = Len(bb.args)
         /\ \A j \in 1..Len(bb.args) : ~Liftable(bb.args[j]) => os[i].args[j] = bb.args[j]
=============================================================================
