-------------------------------- MODULE Exprs --------------------------------
(* Expression graphs.  A graph is described by a list of items (leaves,         *)
(* placeholders, literals, operators, operator nodes), each over earlier ones.  *)
(* Two items are the same thing iff they are built alike from the same things;  *)
(* cls is the first item that is the same.  Rewriting is defined on the         *)
(* unfolded terms: <<"L", name>>, <<"P", name>>, <<"C", value>>,                *)
(* <<"O", operator, arguments>>.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Label(it) == it.key \o "*" \o ToString(IF "rep" \in DOMAIN it THEN it.rep ELSE 1)
Names == {"x", "y", "z", "w", "u", "v", "_q", "args", "a1"}
ValidSig(s) ==
  LET n == Len(s)
  IN /\ \A i \in 1..n : s[i].n \in Names
     /\ \A i, j \in 1..n : s[i].n = s[j].n => i = j
     /\ \A i \in 1..n : s[i].v => i = n /\ s[i].def = 0
     /\ \A i \in 1..n : s[i].def # 0 => \A j \in i..n : s[j].v \/ s[j].def # 0
Var(s) == s # <<>> /\ s[Len(s)].v
Takes(s, k) == IF Var(s) THEN k >= Len(s) - 1 ELSE k = Len(s)

Key(t, s, s2, a, d, sig) == [t |-> t, s |-> s, s2 |-> s2, a |-> a, d |-> d, sig |-> sig]
\* One more item: B is what is known about the earlier ones.
Record(it, B) ==
  CASE it.i = "leaf" -> [ok |-> TRUE, op |-> FALSE, lv |-> {Label(it)}, ph |-> {}, key |-> Key("leaf", Label(it), "", 0, <<>>, <<>>)]
    [] it.i = "ph" -> [ok |-> TRUE, op |-> FALSE, lv |-> {}, ph |-> {Label(it)}, key |-> Key("ph", Label(it), "", 0, <<>>, <<>>)]
    [] it.i = "lit" -> [ok |-> TRUE, op |-> FALSE, lv |-> {}, ph |-> {}, key |-> Key("lit", it.ty, "", it.v, <<>>, <<>>)]
    [] it.i = "test" -> [ok |-> TRUE, op |-> TRUE, lv |-> {}, ph |-> {}, key |-> Key("test", it.name, it.doc, it.ar, <<>>, <<>>)]
    [] it.i = "tuple" -> [ok |-> TRUE, op |-> TRUE, lv |-> {}, ph |-> {}, key |-> Key("tuple", "", "", -1, <<>>, <<>>)]
    [] it.i = "reg" -> [ok |-> TRUE, op |-> TRUE, lv |-> {}, ph |-> {},
                        key |-> Key("reg", it.name, "", IF it.name = "verif.f" THEN -1 ELSE IF it.name = "verif.g" THEN 2 ELSE -2, <<>>, <<>>)]
    [] it.i = "lam" ->
         LET bd == B[it.body]
         IN [ok |-> /\ bd.ok /\ ~bd.op /\ ValidSig(it.sig) /\ bd.lv = {}
                    /\ bd.ph \subseteq {it.sig[j].n \o "*1" : j \in 1..Len(it.sig)},
             op |-> TRUE, lv |-> {}, ph |-> {}, key |-> Key("lam", it.name, it.doc, 0, <<bd.cls>>, it.sig)]
    [] OTHER ->
         LET o == B[it.o]
             fits == CASE o.key.t = "lam" -> Takes(o.key.sig, Len(it.d))
                       [] o.key.a = -2 -> FALSE
                       [] o.key.a = -1 -> TRUE
                       [] OTHER -> Len(it.d) = o.key.a
         IN [ok |-> o.ok /\ o.op /\ fits /\ \A j \in 1..Len(it.d) : B[it.d[j]].ok,
             op |-> FALSE, lv |-> UNION {B[it.d[j]].lv : j \in 1..Len(it.d)}, ph |-> UNION {B[it.d[j]].ph : j \in 1..Len(it.d)},
             key |-> Key("op", "", "", 0, <<o.cls>> \o [j \in 1..Len(it.d) |-> B[it.d[j]].cls], <<>>)]
RECURSIVE Extend(_, _)
Extend(I, B) ==
  IF Len(B) = Len(I) THEN B
  ELSE LET r == Record(I[Len(B) + 1], B)
           same == {j \in 1..Len(B) : B[j].ok /\ B[j].key = r.key}
           cls == IF ~r.ok THEN 0 ELSE IF same = {} THEN Len(B) + 1 ELSE CHOOSE j \in same : \A k \in same : j <= k
       IN Extend(I, Append(B, [cls |-> cls, ok |-> r.ok, op |-> r.op, lv |-> r.lv, ph |-> r.ph, key |-> r.key]))
Graph(I) == Extend(I, <<>>)

\* -------------------------------------------------------------- traversal
Deps(B, c) == IF B[c].key.t = "op" THEN Tail(B[c].key.d) ELSE <<>>
RECURSIVE ReachFrom(_, _, _)
ReachFrom(B, k, S) == IF k = 0 THEN S
                      ELSE ReachFrom(B, k - 1, IF k \in S THEN S \cup {Deps(B, k)[j] : j \in 1..Len(Deps(B, k))} ELSE S)
Reach(B, c) == ReachFrom(B, c, {c})
\* Every distinct node once, arguments first.
ChildrenFirst(B, c, s) ==
  LET R == Reach(B, c)
  IN /\ Len(s) = Cardinality(R)
     /\ {s[i] : i \in 1..Len(s)} = R
     /\ \A i \in 1..Len(s) : \A j \in 1..Len(Deps(B, s[i])) : \E k \in 1..(i - 1) : s[k] = Deps(B, s[i])[j]
\* Every node is opened once, under a node that uses it, and closed after its arguments.
RECURSIVE Brackets(_, _, _, _, _)
Brackets(B, s, i, stack, done) ==
  IF i > Len(s) THEN stack = <<>>
  ELSE LET n == s[i].n
           top == stack[Len(stack)]
       IN IF s[i].pre
          THEN /\ n \notin done /\ \A j \in 1..Len(stack) : stack[j] # n
               /\ stack # <<>> => \E j \in 1..Len(Deps(B, top)) : Deps(B, top)[j] = n
               /\ Brackets(B, s, i + 1, Append(stack, n), done)
          ELSE /\ stack # <<>> /\ top = n
               /\ \A j \in 1..Len(Deps(B, n)) : Deps(B, n)[j] \in done
               /\ Brackets(B, s, i + 1, SubSeq(stack, 1, Len(stack) - 1), done \cup {n})
\* A value computed bottom-up: base(c) + sum of (j + 1) * value of argument j.
RECURSIVE Weigh(_, _)
Weigh(ds, V) == IF ds = <<>> THEN 0 ELSE Weigh(SubSeq(ds, 1, Len(ds) - 1), V) + (Len(ds) + 1) * V[ds[Len(ds)]]
RECURSIVE Up(_, _, _, _, _)
Up(B, k, V, base, m) ==
  IF k > Len(B) THEN V
  ELSE Up(B, k + 1, Append(V, IF B[k].ok /\ ~B[k].op THEN (base[k] + Weigh(Deps(B, k), V)) % m ELSE 0), base, m)

\* ---------------------------------------------------------------- rewriting
OpName(B, o) == IF B[o].key.t = "tuple" THEN "tuple" ELSE "o" \o ToString(o)
RECURSIVE Tree(_, _)
Tree(B, c) ==
  LET k == B[c].key
  IN CASE k.t = "leaf" -> <<"L", k.s>>
       [] k.t = "ph" -> <<"P", k.s>>
       [] k.t = "lit" -> <<"C", k.s \o ":" \o ToString(k.a)>>
       [] OTHER -> <<"O", OpName(B, k.d[1]), [j \in 1..(Len(k.d) - 1) |-> Tree(B, k.d[j + 1])]>>
IsOp(t) == t[1] = "O"
Rule(R, t) == LET m == {i \in 1..Len(R) : R[i][1] = t}
              IN IF m = {} THEN t ELSE R[CHOOSE i \in m : \A j \in m : i <= j][2]
\* Bottom-up, on the nodes with rewritten arguments.
RECURSIVE T(_, _)
T(R, t) == Rule(R, IF IsOp(t) THEN <<"O", t[2], [j \in 1..Len(t[3]) |-> T(R, t[3][j])]>> ELSE t)
\* Matching the original nodes.
RECURSIVE S(_, _)
S(R, t) == IF \E i \in 1..Len(R) : R[i][1] = t THEN Rule(R, t)
           ELSE IF IsOp(t) THEN <<"O", t[2], [j \in 1..Len(t[3]) |-> S(R, t[3][j])]>> ELSE t
\* ------------------------------------------------- calls of defined operators
RECURSIVE Fill(_, _)
Fill(m, t) == CASE t[1] = "P" -> m[t[2]]
                [] IsOp(t) -> <<"O", t[2], [j \in 1..Len(t[3]) |-> Fill(m, t[3][j])]>>
                [] OTHER -> t
Beta(B, o, args) ==
  LET sig == B[o].key.sig  n == Len(sig)
      val(i) == IF sig[i].v THEN <<"O", "tuple", SubSeq(args, n, Len(args))>> ELSE args[i]
      m == [p \in {sig[i].n \o "*1" : i \in 1..n} |-> val(CHOOSE i \in 1..n : sig[i].n \o "*1" = p)]
  IN Fill(m, Tree(B, B[o].key.d[1]))
RegF(B) == CHOOSE o \in 1..Len(B) : B[o].ok /\ B[o].cls = o /\ B[o].key.t = "reg" /\ B[o].key.s = "verif.f"
Lower(B, t) ==
  IF ~IsOp(t) \/ t[2] = "tuple" THEN t
  ELSE LET o == CHOOSE k \in 1..Len(B) : B[k].ok /\ B[k].op /\ B[k].cls = k /\ OpName(B, k) = t[2]
           k == B[o].key
       IN IF k.t = "lam" THEN Beta(B, o, t[3])
          ELSE IF k.t = "reg" /\ k.s = "verif.g" THEN <<"O", OpName(B, RegF(B)), <<t[3][2], t[3][1]>>>>
          ELSE t

\* Repeatedly, until nothing changes; an endless chain is an error.
Fail == [ok |-> FALSE, t |-> <<"null">>]
Good(t) == [ok |-> TRUE, t |-> t]
RECURSIVE D(_, _, _, _)
D(R, B, t, path) ==   \* by the rules R, or by lowering if R is empty
  IF t \in path THEN Fail
  ELSE LET ds == IF IsOp(t) THEN [j \in 1..Len(t[3]) |-> D(R, B, t[3][j], path \cup {t})] ELSE <<>>
       IN IF \E j \in 1..Len(ds) : ~ds[j].ok THEN Fail
          ELSE LET n == IF IsOp(t) THEN <<"O", t[2], [j \in 1..Len(ds) |-> ds[j].t]>> ELSE t
                   u == IF R = <<>> THEN Lower(B, n) ELSE Rule(R, n)
               IN IF n # t /\ n \in path THEN Fail
                  ELSE IF u = n THEN Good(n) ELSE D(R, B, u, path \cup {t, n})
=============================================================================
