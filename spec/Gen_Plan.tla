------------------------------ MODULE Gen_Plan -------------------------------
(* All request histories over a small path alphabet; the invariants say what  *)
(* a plan is good for.                                                        *)
EXTENDS Plan, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
MultiMode == IOEnv.MODE = "multi"

E(k, t) == [k |-> k, t |-> t]
A == E("reg", "a")
B == E("reg", "b")
M == E("multi", "r[:]")
S == E("size", "count(s[:])")
Paths == IF MultiMode
         THEN {<<M>>, <<A, M>>, <<M, A>>, <<M, B>>, <<M, A, B>>, <<M, A, M>>, <<A, M, B>>, <<M, S>>, <<M, A, S>>}
         ELSE {<<A>>, <<B>>, <<A, B>>, <<A, A>>, <<B, A>>, <<A, B, A>>, <<A, B, B>>, <<S>>, <<A, S>>, <<A, B, S>>}
VARIABLES reqs, plan, ok
vars == <<reqs, plan, ok>>
Init == reqs = <<>> /\ plan = <<>> /\ ok = TRUE
Request(p) == LET r == [els |-> p, name |-> "n" \o ToString(Len(reqs) + 1), id |-> Len(reqs) + 1]
                  w == Walk(plan, 0, r, 1) IN
              reqs' = Append(reqs, r) /\ plan' = w.nodes /\ ok' = w.ok
Next == ok /\ Len(reqs) < Depth /\ \E p \in Paths : Request(p)

Leaves == {j \in 1..Len(plan) : plan[j].name # ""}
\* Every accepted request has exactly one leaf, with its path; no other leaf.
ServesAll == ok => /\ Cardinality(Leaves) = Len(reqs)
                   /\ \A i \in 1..Len(reqs) : \E j \in Leaves :
                        plan[j].req = i /\ plan[j].name = reqs[i].name /\ PathOf(plan, j) = reqs[i].els
LeavesAreEnds == ok => \A j \in 1..Len(plan) : (plan[j].name # "") <=> (Kids(plan, j) = <<>>)
SharedOnce == \A i, j \in 1..Len(plan) :
  (i # j /\ plan[i].par = plan[j].par /\ plan[i].el = plan[j].el)
  => (plan[i].name # "" \/ plan[j].name # "")
RejectsOnlyPrefixes == ~ok => \E i, j \in 1..Len(reqs) : ProperPrefix(reqs[i].els, reqs[j].els)
SafeHistoriesAccepted ==
  (\A i, j \in 1..Len(reqs) : i < j => ~ProperPrefix(reqs[i].els, reqs[j].els)) => ok
Inv == ServesAll /\ LeavesAreEnds /\ SharedOnce /\ RejectsOnlyPrefixes /\ SafeHistoriesAccepted
Emit == (Len(reqs) = Depth \/ ~ok \/ Len(reqs) <= 1) => PrintT(ToJson([r |-> reqs, ok |-> ok]))
==============================================================================
