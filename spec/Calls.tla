-------------------------------- MODULE Calls --------------------------------
(* C14. Declared values are trees: scalars, lists, dicts, structs and calls    *)
(* [t |-> "c", fn, x (arguments), k / kx (keyword arguments), deps, data].     *)
(* Evaluation replaces every call by its result and keeps everything else.    *)
EXTENDS Text

Scalar(t) == t.t \in {"n", "b", "i", "f", "s", "y"}
UtilsDep == Cp("//arolla/codegen:utils")
OwnDeps(t) == Range1(t.deps) \cup (IF t.fn \in {"merge", "read"} THEN {UtilsDep} ELSE {})

RECURSIVE Sub(_), Calls(_), Deps(_), Data(_)
Kids(t) == CASE t.t \in {"l", "d", "st"} -> t.x
             [] t.t = "c" -> t.x \o t.kx
             [] OTHER -> <<>>
\* All nodes are visited: sums and unions over the tree.
RECURSIVE SumOver(_, _)
SumOver(f(_), s) == IF s = <<>> THEN 0 ELSE f(Head(s)) + SumOver(f, Tail(s))
Calls(t) == (IF t.t = "c" /\ t.fn = "rec" THEN 1 ELSE 0) + SumOver(Calls, Kids(t))
Deps(t) == (IF t.t = "c" THEN OwnDeps(t) ELSE {}) \cup UNION {Deps(Kids(t)[i]) : i \in 1..Len(Kids(t))}
Data(t) == (IF t.t = "c" THEN Range1(t.data) ELSE {}) \cup UNION {Data(Kids(t)[i]) : i \in 1..Len(Kids(t))}
Sub(t) == {t} \cup UNION {Sub(Kids(t)[i]) : i \in 1..Len(Kids(t))}

\* The (key, value) pairs written into a merged dict, in order.
RECURSIVE Pairs(_), Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Pairs(t) == CASE t.t = "d" -> [i \in 1..Len(t.k) |-> <<t.k[i], t.x[i]>>]
              [] t.t = "c" /\ t.fn = "same" -> Pairs(t.x[1])
              [] t.t = "c" /\ t.fn = "merge" -> Flat([i \in 1..Len(t.x) |-> Pairs(t.x[i])])
LastOf(ps, k) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k /\ \A j \in (i + 1)..Len(ps) : ps[j][1] # k][2]

MagicKeys == {Cp("__call_python_func__"), Cp("fn"), Cp("args")}
At(v, key) == v.x[CHOOSE i \in 1..Len(v.k) : v.k[i] = key]

\* v is the value of the declared tree t.
RECURSIVE Is(_, _, _)
AllAre(ts, vs, base) == Len(ts) = Len(vs) /\ \A i \in 1..Len(ts) : Is(ts[i], vs[i], base)
Is(t, v, base) ==
  CASE Scalar(t) -> v = t
    [] t.t = "p" -> v = [t |-> "s", s |-> base \o t.s]
    [] t.t = "l" -> v.t = "l" /\ "tuple" \notin DOMAIN v /\ AllAre(t.x, v.x, base)
    [] t.t \in {"d", "st"} ->
         /\ v.t = "d" /\ Range1(v.k) = Range1(t.k) /\ Len(v.k) = Len(t.k)
         /\ \A i \in 1..Len(t.k) : Is(t.x[i], At(v, t.k[i]), base)
    [] t.t = "c" /\ t.fn = "rec" ->
         /\ v.t = "r" /\ AllAre(t.x, v.x, base)
         /\ Len(v.k) = Len(t.k) /\ Range1(v.k) = Range1(t.k)
         /\ \A i \in 1..Len(t.k) :
              Is(t.kx[i], v.kx[CHOOSE j \in 1..Len(v.k) : v.k[j] = t.k[i]], base)
    [] t.t = "c" /\ t.fn = "same" -> Is(t.x[1], v, base)
    [] t.t = "c" /\ t.fn = "quote" ->
         /\ v.t = "d" /\ Range1(v.k) = MagicKeys
         /\ At(v, Cp("fn")) = [t |-> "s", s |-> Cp("verif_fx.rec")]
         /\ At(v, Cp("args")).t = "l" /\ AllAre(t.x, At(v, Cp("args")).x, base)
    [] t.t = "c" /\ t.fn = "merge" ->
         LET ps == Pairs(t) IN
         /\ v.t = "d" /\ Range1(v.k) = {ps[i][1] : i \in 1..Len(ps)} /\ NoDup(v.k)
         /\ \A i \in 1..Len(v.k) : Is(LastOf(ps, v.k[i]), v.x[i], base)
    [] t.t = "c" /\ t.fn = "read" -> v = [t |-> "y", s |-> t.s]

\* Every recorded call happened once, after the calls inside its arguments.
RECURSIVE Ns(_)
VKids(v) == CASE v.t \in {"l", "d"} -> v.x
              [] v.t = "r" -> v.x \o v.kx
              [] OTHER -> <<>>
Ns(v) == (IF v.t = "r" THEN <<v.n>> ELSE <<>>) \o Flat([i \in 1..Len(VKids(v)) |-> Ns(VKids(v)[i])])
RECURSIVE Nested(_)
Nested(v) ==
  /\ v.t = "r" => \A i \in 1..Len(VKids(v)) : \A n \in Range1(Ns(VKids(v)[i])) : n < v.n
  /\ \A i \in 1..Len(VKids(v)) : Nested(VKids(v)[i])
Once(t, v, n) == n = Calls(t) /\ NoDup(Ns(v)) /\ Range1(Ns(v)) \subseteq 1..n /\ Nested(v)

\* ---- text without the prefix shared with the previous text
CommonLen(a, b) ==
  LET m == MinLen(a, b) IN
  CHOOSE k \in 0..m : (\A i \in 1..k : a[i] = b[i]) /\ (k < m => a[k + 1] # b[k + 1])
Trimmed(s) == [i \in 1..Len(s) |-> IF i = 1 THEN s[1]
               ELSE SubSeq(s[i], CommonLen(s[i - 1], s[i]) + 1, Len(s[i]))]

\* ---- UTF-8
Utf8C(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Cat(Map(Utf8C, s))
==============================================================================
