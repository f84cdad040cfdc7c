----------------------------- MODULE Trace_Plan ------------------------------
(* C11: plans recorded from the real extraction functions.                    *)
EXTENDS TraceBase, Plan

Served(e) == SelectSeq(e.acc, LAMBDA a : a.pp /\ (IsSingle(a.els) <=> e.mode = "single"))
Req(a) == [els |-> a.els, name |-> a.eff, id |-> a.id]
Reqs(e) == [i \in 1..Len(Served(e)) |-> Req(Served(e)[i])]

\* --- the recorded tree T: nodes in the reported post order
Ceil(n, k) == (n + k - 1) \div k
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Logical(_, _)
Logical(T, i) == Flat([c \in 1..Len(T[i].ch) |->
                       LET x == T[i].ch[c] IN IF T[x].fic THEN T[x].ch ELSE <<x>>])
RECURSIVE Subtree(_, _)
Subtree(T, i) == {i} \cup UNION {Subtree(T, T[i].ch[c]) : c \in 1..Len(T[i].ch)}

PostOrder(T) ==
  /\ \A i \in 1..Len(T) :
       /\ \A c \in 1..Len(T[i].ch) : T[i].ch[c] < i /\ T[T[i].ch[c]].par = i
       /\ T[i].par \in 0..Len(T) /\ (T[i].par = 0 <=> i = Len(T))
       /\ T[i].par # 0 => i \in RangeOf(T[T[i].par].ch)
       /\ (\A c \in 2..Len(T[i].ch) : T[i].ch[c - 1] = MinS(Subtree(T, T[i].ch[c])) - 1)
       /\ T[i].ch # <<>> => T[i].ch[Len(T[i].ch)] = i - 1
FanOut(T, max) ==
  \A i \in 1..Len(T) :
    LET n == Len(Logical(T, i)) IN
    IF T[i].fic THEN Len(T[i].ch) \in 1..max /\ \A c \in 1..Len(T[i].ch) : ~T[T[i].ch[c]].fic
    ELSE IF n <= max THEN \A c \in 1..Len(T[i].ch) : ~T[T[i].ch[c]].fic
    ELSE Len(T[i].ch) = Ceil(n, max) /\ \A c \in 1..Len(T[i].ch) : T[T[i].ch[c]].fic

\* The recorded tree is the plan, node for node (i: recorded, s: planned).
RECURSIVE Same(_, _, _, _)
Same(T, i, plan, s) ==
  LET lc == Logical(T, i)
      ks == Kids(plan, s) IN
  /\ Len(lc) = Len(ks)
  /\ s # 0 => /\ T[i].el = plan[s].el.t
              /\ T[i].name = plan[s].name
              /\ T[i].size = plan[s].size
              /\ T[i].acc = plan[s].req
  /\ s = 0 => T[i].name = "" /\ T[i].acc = 0 /\ ~T[i].size
  /\ \A k \in 1..Len(lc) : Same(T, lc[k], plan, ks[k])

\* recorded index -> planned index
RECURSIVE Corr(_, _, _, _)
Corr(T, i, plan, s) ==
  (i :> s) @@ LET lc == Logical(T, i)
                  ks == Kids(plan, s)
                  F[k \in 0..Len(lc)] == IF k = 0 THEN <<>> ELSE F[k - 1] @@ Corr(T, lc[k], plan, ks[k]) IN
              F[Len(lc)]

RECURSIVE JoinText(_, _)
JoinText(p, i) == IF i > Len(p) THEN "" ELSE IF i = Len(p) THEN p[i].t ELSE p[i].t \o "/" \o JoinText(p, i + 1)

LeafIdx(T) == Asc({i \in 1..Len(T) : T[i].name # ""})
InnerIdx(T) == Asc({i \in 1..Len(T) : T[i].name = ""})

Numbering(e, T) ==
  LET L == LeafIdx(T)
      N == InnerIdx(T) IN
  /\ e.node2id = [i \in 1..Len(T) |-> i - 1]
  /\ e.leaf2id = [i \in 1..Len(L) |-> <<L[i], i - 1>>]
  \* The root of an empty plan is an inner node too.
  /\ e.inner2id = [i \in 1..Len(N) |-> <<N[i], i - 1>>]
  /\ e.sizes = [i \in 1..Len(SelectSeq(L, LAMBDA x : T[x].size)) |->
                LET x == SelectSeq(L, LAMBDA y : T[y].size)[i] IN (CHOOSE j \in 1..Len(L) : L[j] = x) - 1]
  /\ e.deflen = Len(T)
  /\ e.def = [i \in 1..Len(N) |-> <<N[i] - 1, [c \in 1..Len(T[N[i]].ch) |-> T[N[i]].ch[c] - 1]>>]
              \/ (Len(T) = 1 /\ RangeOf(e.def) \subseteq {<<0, <<>>>>})

NodeFacts(e, T, plan, M) ==
  LET Anc(i) == IF T[i].fic THEN T[i].par ELSE i  IN
  \A i \in 1..Len(T) :
    LET s == M[Anc(i)]
        p == PathOf(plan, s) IN
    /\ T[i].pp = JoinText(p, 1)
    /\ T[i].depth = Len(p)
    /\ T[i].nfa = Anc(i)
    /\ T[i].leaf = (T[i].name # "")
    /\ T[i].leaves = SelectSeq(LeafIdx(T), LAMBDA x : x \in Subtree(T, i))
    /\ T[i].incs = UNION {RangeOf((CHOOSE a \in RangeOf(e.acc) : a.id = T[x].acc).inc) : x \in RangeOf(T[i].leaves)}
                   \cup (IF T[i].leaves # <<>> THEN {"arolla/codegen/io/multi_loader.h"} ELSE {})
                   \cup (IF \E x \in RangeOf(T[i].leaves) : T[x].size THEN {"arolla/dense_array/qtype/types.h"} ELSE {})
       \* as a set
Acc(e, id) == CHOOSE a \in RangeOf(e.acc) : a.id = id
SingleFacts(e, T) ==
  \A i \in 1..Len(T) :
    LET L == RangeOf(T[i].leaves) IN
    /\ T[i].hassize = (\E x \in L : T[x].size)
    /\ T[i].hasopt = (\E x \in L : ~T[x].size /\ Acc(e, T[x].acc).def = "")
    /\ T[i].hasdef = (\E x \in L : ~T[x].size /\ Acc(e, T[x].acc).def # "")

\* ---- which values and sizes have to be collected (on the logical tree)
RECURSIVE Up(_, _)
Up(plan, s) == IF s = 0 THEN <<0>> ELSE <<s>> \o Up(plan, plan[s].par)  \* self .. root
AncOrSelf(plan, a, s) == a \in RangeOf(Up(plan, s))
RepAnc(plan, s) == LET u == Up(plan, s)
                       D == {i \in 1..Len(u) : u[i] # 0 /\ Multi(plan[u[i]].el)} IN
                   IF D = {} THEN 0 ELSE u[MinS(D)]
Repeated(plan, s) == RepAnc(plan, s) # 0
BranchAnc(plan, s) ==
  IF s = 0 THEN 0
  ELSE LET u == Up(plan, plan[s].par)
           D == {i \in 1..Len(u) : u[i] = 0 \/ Len(Kids(plan, u[i])) > 1} IN
       u[MinS(D)]
Cost10 == [reg |-> 4, idx |-> 5, map |-> 220, size |-> 4, deref |-> 4, addr |-> 4, struct |-> 4, ext |-> 20]
RECURSIVE CostTo(_, _, _)
CostTo(plan, s, a) == IF s = a THEN 0 ELSE Cost10[plan[s].el.k] + CostTo(plan, plan[s].par, a)
LeavesUnder(plan, s) == {j \in 1..Len(plan) : plan[j].name # "" /\ AncOrSelf(plan, s, j)}
\* Allowed <<start, kind>> of a leaf: a shared point with the same rows as the
\* leaf (kind 1), otherwise the repeated step itself (kind 0).
Starts(plan, s) ==
  LET b == BranchAnc(plan, s)
      r == RepAnc(plan, s) IN
  IF AncOrSelf(plan, r, b)
  THEN LET n0 == BranchAnc(plan, b)
           n == IF AncOrSelf(plan, n0, r) THEN r ELSE n0
           c == CostTo(plan, b, n) * (Cardinality(LeavesUnder(plan, b)) - 1) IN
       IF c < 13 THEN {<<n, 1>>} ELSE IF c = 13 THEN {<<n, 1>>, <<b, 1>>} ELSE {<<b, 1>>}
  ELSE {<<r, 0>>}

CanContinue(el, mut) ==
  CASE el.k \in {"reg", "map"} -> mut
    [] el.k \in {"idx", "deref"} -> FALSE
    [] el.k \in {"addr", "struct", "size"} -> TRUE
    [] el.k = "ext" -> mut \/ ~el.f
    [] OTHER -> TRUE
AlwaysPresent(plan, s, mut) ==
  \A x \in RangeOf(Up(plan, s)) :
    (x # 0 /\ Repeated(plan, x) /\ ~Multi(plan[x].el)) => CanContinue(plan[x].el, mut)

MultiFacts(e, T, plan, M) ==
  LET Back == [s \in {M[i] : i \in DOMAIN M} |-> CHOOSE i \in DOMAIN M : M[i] = s]
      L == RangeOf(LeafIdx(T))
      Rep(i) == M[T[i].start[1]]
      V == ({Rep(i) : i \in {j \in L : T[j].start[2] = 1}}
            \cup {plan[Rep(i)].par : i \in {j \in L : T[j].start[2] = 0}}) \ {0}
      Z == {Rep(i) : i \in {j \in L : T[j].start[2] = 0 /\ Repeated(plan, plan[Rep(j)].par)}} \ V
      C == {<<Back[s], 1>> : s \in V} \cup {<<Back[s], 0>> : s \in Z}
      Below(i) == {c \in C : c[1] \in Subtree(T, i)}
      D == {<<i, IF \E c \in Below(i) : c[2] = 1 THEN 1 ELSE 0>> :
            i \in {j \in 1..Len(T) : Below(j) # {}}} IN
  /\ \A i \in L : <<M[T[i].start[1]], T[i].start[2]>> \in Starts(plan, M[i])
  /\ RangeOf(e.collect) = C /\ Len(e.collect) = Cardinality(C)
  /\ \A k \in 2..Len(e.collect) : e.collect[k - 1][1] < e.collect[k][1]
  /\ RangeOf(e.desc) = D /\ Len(e.desc) = Cardinality(D)
  /\ \A i \in DOMAIN M :
       LET s == M[i]
           rd == Cardinality({x \in RangeOf(Up(plan, s)) : x # 0 /\ Multi(plan[x].el)}) IN
       /\ T[i].rdepth = rd
       /\ rd > 0 => /\ T[i].always = AlwaysPresent(plan, s, FALSE)
                    /\ T[i].alwaysm = AlwaysPresent(plan, s, TRUE)

Fix(T) == [i \in 1..Len(T) |-> [T[i] EXCEPT !.incs = RangeOf(@)]]

Ok(e) ==
  IF e.mode = "multi" /\ \E i \in 1..Len(e.acc) : e.acc[i].pp /\ e.acc[i].def # ""
  THEN e.err = "NotImplementedError" \/ (e.err = "ValueError" /\ ~Build(Reqs(e)).ok)
  ELSE LET w == Build(Reqs(e)) IN
  IF ~w.ok THEN e.err = "ValueError"
  ELSE /\ e.err = ""
       /\ e.rest = [i \in 1..(Len(e.acc) - Len(Served(e))) |->
                    LET R == SelectSeq(e.acc, LAMBDA a : ~(a.pp /\ (IsSingle(a.els) <=> e.mode = "single"))) IN
                    <<R[i].name, R[i].id>>]
       /\ LET T == Fix(e.tree)
              plan == w.nodes IN
          /\ PostOrder(T)
          /\ FanOut(T, e.max)
          /\ Same(T, Len(T), plan, 0)
          /\ LET M == Corr(T, Len(T), plan, 0) IN
             /\ DOMAIN M = {i \in 1..Len(T) : ~T[i].fic}
             /\ Numbering(e, T)
             /\ NodeFacts(e, T, plan, M)
             /\ e.mode = "single" => SingleFacts(e, T)
             /\ e.mode = "multi" => MultiFacts(e, T, plan, M)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
==============================================================================
