------------------------------ MODULE Gen_Init ------------------------------
(* Small batches of three initializers A, B, C with up to two ordering           *)
(* constraints each over A, B, C, an undefined name and a phony one; executing   *)
(* whatever is ready completes exactly the well-formed batches.                  *)
EXTENDS Init, TLC, Json, IOUtils
Max == atoi(IOEnv.MAX)
VARIABLES B, ran
gvars == <<B, ran>>
Nm == << <<65>>, <<66>>, <<67>> >>
PX == <<64, 112, 104, 111, 110, 121, 47, 120>>
Names == {<<65>>, <<66>>, <<67>>, <<90>>, PX}
Cons == {c \in (SUBSET Names) \X (SUBSET Names) : Cardinality(c[1]) + Cardinality(c[2]) <= Max}
Seqs(S) == {s \in [1..Cardinality(S) -> S] : ToSet(s) = S}
One(S) == CHOOSE s \in Seqs(S) : TRUE
It(n, c) == [name |-> n, deps |-> One(c[1]), rdeps |-> One(c[2]), k |-> "void"]
GInit == /\ \E a \in Cons, b \in Cons, c \in Cons :
              B = <<It(Nm[1], a), It(Nm[2], b), It(Nm[3], c)>>
         /\ ran = <<>>
Ready(i) == \A v \in AllBefore(Before(B, {}), Item(i)) :
              IF v[1] = "i" THEN v[2] \in ToSet(ran) ELSE Phony(v[2])
GNext == /\ \E i \in Ids(B) \ ToSet(ran) : Ready(i) /\ ran' = Append(ran, i)
         /\ B' = B
Stuck == \A i \in Ids(B) \ ToSet(ran) : ~Ready(i)
Laws == /\ InOrder(B, {}, ran)
        /\ Stuck => ((Len(ran) = Len(B)) <=> ~Bad(B, {}))
Emit == ran = <<>> => PrintT(ToJson(B))
=============================================================================
