----------------------------- MODULE MC_AccList ------------------------------
(* Laws of the canonical list on every list of up to N accessors: order       *)
(* independence, idempotence, sharding partitions.                            *)
EXTENDS AccList
CONSTANTS N

L(x) == <<x>>
A == {[name |-> n, d |-> d, lam |-> << <<97>>, b >>, inc |-> i, pp |-> <<>>, ty |-> <<>>, df |-> <<>>] :
      n \in {<<>>, <<98>>, <<97, 98>>}, d \in {<<>>, <<98>>}, b \in {<<>>, <<32>>, <<99>>},
      i \in {<<>>}} 
VARIABLES acc, n
Init == acc = <<>> /\ n \in 0..3
Add == Len(acc) < N /\ \E a \in A : acc' = Append(acc, a) /\ UNCHANGED n
Next == Add
Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in Permutations(1..Len(s))}
Back(c) == [i \in 1..Len(c) |-> [name |-> c[i].name, d |-> c[i].c.d, lam |-> <<c[i].c.lam>>, inc |-> <<>>, pp |-> <<>>, ty |-> <<>>, df |-> <<>>]]
Laws ==
  /\ (\A i \in 1..Len(acc) : ~Nameless(acc[i])) => \A q \in Perms(acc) : Rejected(q) = Rejected(acc)
  /\ ~Rejected(acc) =>
     /\ \A q \in Perms(acc) : Canon(q) = Canon(acc)
     /\ IsSortedUnique([i \in 1..Len(Canon(acc)) |-> Canon(acc)[i].name])
     /\ ~Rejected(Back(Canon(acc))) /\ Canon(Back(Canon(acc))) = Canon(acc)
     /\ n > 0 => Flatten(Chunks(acc, n)) = acc
Emit == PrintT(ToString(Len(acc)))
==============================================================================
