------------------------------ MODULE MC_Logic ------------------------------
(* The algebra of the truth tables, over all values.                            *)
EXTENDS Logic
VARIABLES a, b, c
B == {M, F, T}
V == {M, 0, 1, 2}
Init == a \in V /\ b \in V /\ c \in V
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Bools == a \in B /\ b \in B /\ c \in B
Laws == Bools =>
  /\ And(a, b) = And(b, a) /\ Or(a, b) = Or(b, a)
  /\ And(a, And(b, c)) = And(And(a, b), c) /\ Or(a, Or(b, c)) = Or(Or(a, b), c)
  /\ And(a, Or(b, c)) = Or(And(a, b), And(a, c)) /\ Or(a, And(b, c)) = And(Or(a, b), Or(a, c))
  /\ Not(And(a, b)) = Or(Not(a), Not(b)) /\ Not(Not(a)) = a
  /\ And(a, T) = a /\ Or(a, F) = a /\ And(a, F) = F /\ Or(a, T) = T
  \* a known answer does not change when a missing argument becomes known
  /\ \A x \in {F, T} : /\ And(M, b) # M => And(x, b) = And(M, b)
                       /\ Or(M, b) # M => Or(x, b) = Or(M, b)
  /\ If(a, T, F, M) = a /\ If(a, b, b, b) = b /\ If(Not(a), b, c, M) = If(a, c, b, M)
\* short-circuit: the decided side is not needed
Short == Bools => (a = F => And(a, b) = F /\ And(a, c) = F) /\ (a = T => Or(a, b) = T)
Presence ==
  /\ POr(a, POr(b, c)) = POr(POr(a, b), c) /\ POr(a, a) = a /\ POr(M, a) = a
  /\ Has(PAnd(a, b)) = PAnd(Has(a), Has(b)) /\ Has(POr(a, b)) = POr(Has(a), Has(b))
  /\ PAnd(Has(a), Has(b)) = PAnd(Has(b), Has(a))
  /\ PNot(PNot(a)) = Has(a) /\ PNot(POr(a, b)) = PAnd(PNot(a), PNot(b))
  /\ PAnd(PAnd(a, b), c) = PAnd(a, PAnd(b, c))
  /\ Where(Has(c), a, b) = POr(PAnd(a, Has(c)), PAnd(b, PNot(c)))
  /\ AndOr(a, Has(b), c) = Where(PAnd(Has(a), Has(b)), a, c)
Order == /\ Eq(a, b) = Eq(b, a) /\ Le(a, b) = POr(Lt(a, b), Eq(a, b))
         /\ PAnd(Eq(a, b), Ne(a, b)) = M /\ POr(Eq(a, b), Ne(a, b)) = PAnd(Has(a), Has(b))
         /\ POr(Lt(a, b), Le(b, a)) = PAnd(Has(a), Has(b))
         /\ PAnd(Lt(a, b), Lt(b, c)) # M => Lt(a, c) # M
=============================================================================
