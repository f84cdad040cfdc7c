----------------------------- MODULE Gen_AccList -----------------------------
(* Every list of up to N accessors over a small alphabet.                     *)
EXTENDS AccList, Json, IOUtils
N == atoi(IOEnv.DEPTH)
A == {[name |-> n, d |-> d, lam |-> << <<97>>, b >>, inc |-> i, pp |-> <<>>, ty |-> <<>>, df |-> <<>>] :
      n \in {<<>>, <<97>>, <<97, 98>>}, d \in {<<>>, <<97>>}, b \in {<<>>, <<99>>},
      i \in {<<>>, << <<120>> >>}}
VARIABLE acc
Init == acc = <<>>
Next == Len(acc) < N /\ \E a \in A : acc' = Append(acc, a)
Emit == PrintT(ToJson(acc))
==============================================================================
