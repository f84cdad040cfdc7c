------------------------------ MODULE ExprReg ------------------------------
(* The expression operator registry.  A name is a sequence of components;       *)
(* <<>> is the namespace that holds everything of the session.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES impl,    \* set of [name, id, ref]: id # 0 an implementation, id = 0 the registered operator named ref
          order,   \* registered names, oldest first
          seen,    \* namespaces whose revision was observed
          dirty    \* those with a change since
evars == <<impl, order, seen, dirty>>
EInit == impl = {} /\ order = <<>> /\ seen = {} /\ dirty = {}

Comps == {"a", "b", "c", "_x", "a1", "A"}
Valid(n) == n # <<>> /\ \A i \in 1..Len(n) : n[i] \in Comps
Registered == {r.name : r \in impl}
Of(n) == CHOOSE r \in impl : r.name = n
Prefixes(n) == {SubSeq(n, 1, k) : k \in 0..Len(n)}
Touch(n) == seen' = seen /\ dirty' = dirty \cup (seen \cap Prefixes(n))

CanEReg(n) == Valid(n) /\ n \notin Registered
Put(n, id, ref) ==
  /\ impl' = impl \cup {[name |-> n, id |-> id, ref |-> ref]}
  /\ order' = Append(order, n)
  /\ Touch(n)
Keep == UNCHANGED <<impl, order, seen, dirty>>
EReg(n, id) == IF CanEReg(n) THEN Put(n, id, <<>>) ELSE Keep
ERef(n, to) == IF CanEReg(n) THEN Put(n, 0, to) ELSE Keep
CanEAlias(n, to) == CanEReg(n) /\ to \in Registered
EAlias(n, to) == IF CanEAlias(n, to) THEN Put(n, 0, to) ELSE Keep
EUnreg(n) ==
  IF n \in Registered
  THEN /\ impl' = {r \in impl : r.name # n}
       /\ order' = SelectSeq(order, LAMBDA x : x # n)
       /\ Touch(n)
  ELSE Keep
EObserve(n) == impl' = impl /\ order' = order /\ seen' = seen \cup {n} /\ dirty' = dirty \ {n}

\* The implementation reached through references (0: none, or only a cycle).
RECURSIVE Follow(_, _)
Follow(n, fuel) ==
  IF fuel = 0 \/ n \notin Registered THEN 0
  ELSE IF Of(n).id # 0 THEN Of(n).id ELSE Follow(Of(n).ref, fuel - 1)
Resolve(n) == Follow(n, Cardinality(impl) + 1)
Direct(n) == IF n \notin Registered THEN 0 ELSE IF Of(n).id # 0 THEN Of(n).id ELSE -1

EOnce == Len(order) = Cardinality(Registered) /\ Cardinality(impl) = Cardinality(Registered)
         /\ {order[i] : i \in 1..Len(order)} = Registered
EValid == \A r \in impl : Valid(r.name)
\* Following references more than once around changes nothing.
EFix == \A r \in impl : Follow(r.name, 2 * Cardinality(impl) + 2) = Resolve(r.name)
=============================================================================
