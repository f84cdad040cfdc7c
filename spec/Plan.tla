-------------------------------- MODULE Plan ---------------------------------
(* C11. The traversal plan as a state machine.  A path is a sequence of       *)
(* elements [k, t]: kind and canonical text.  The plan is a sequence of nodes *)
(* [par, el, name, size] (par = 0: child of the root).  Requests are added    *)
(* one by one: shared steps reuse the first node made for them, the last step *)
(* always gets a node of its own, and a request running through an earlier    *)
(* request's own node is a conflict.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

ChildFor(nodes, at, el) ==
  LET C == {j \in 1..Len(nodes) : nodes[j].par = at /\ nodes[j].el = el} IN
  IF C = {} THEN 0 ELSE MinS(C)

RECURSIVE Walk(_, _, _, _)
\* Result [nodes, ok]: the plan after adding path p from step i at node `at`.
Walk(nodes, at, req, i) ==
  LET p == req.els IN
  IF at # 0 /\ nodes[at].name # "" THEN [nodes |-> nodes, ok |-> FALSE]
  ELSE IF i = Len(p)
  THEN [nodes |-> Append(nodes, [par |-> at, el |-> p[i], name |-> req.name,
                                 size |-> p[i].k = "size", req |-> req.id]),
        ok |-> TRUE]
  ELSE LET c == ChildFor(nodes, at, p[i]) IN
       IF c # 0 THEN Walk(nodes, c, req, i + 1)
       ELSE Walk(Append(nodes, [par |-> at, el |-> p[i], name |-> "",
                                size |-> FALSE, req |-> 0]),
                 Len(nodes) + 1, req, i + 1)

RECURSIVE BuildFrom(_, _, _)
BuildFrom(nodes, reqs, i) ==
  IF i > Len(reqs) THEN [nodes |-> nodes, ok |-> TRUE]
  ELSE LET w == Walk(nodes, 0, reqs[i], 1) IN
       IF w.ok THEN BuildFrom(w.nodes, reqs, i + 1) ELSE w
Build(reqs) == BuildFrom(<<>>, reqs, 1)

RECURSIVE PathOf(_, _)
PathOf(nodes, j) == IF j = 0 THEN <<>> ELSE Append(PathOf(nodes, nodes[j].par), nodes[j].el)

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o Asc(S \ {m})
Kids(nodes, j) == Asc({c \in 1..Len(nodes) : nodes[c].par = j})

ProperPrefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Multi(el) == el.k = "multi"
IsSingle(els) == \A i \in 1..Len(els) : ~Multi(els[i])
==============================================================================
