------------------------------- MODULE Gen_Pack -------------------------------
(* Shapes of packs: kinds of names (n) and accessors (a) at every position.      *)
EXTENDS Pack, TLC, Json
NK == 0..5       \* literal, string, mutated string, view of a reused buffer, char array, temporary
AK == 0..6       \* lambda, capturing lambda, functor, function pointer, std::function, mutated functor, shared state
VARIABLE kinds
Init == kinds \in UNION {[1..k -> AK] : k \in 0..2}
          \cup {[i \in 1..k |-> (i * s + o) % 7] : k \in 3..3, s \in 1..2, o \in 0..6}
          \cup {[i \in 1..k |-> (i * 3 + k) % 7] : k \in 4..14}
          \cup {[i \in 1..k |-> c] : k \in {4, 5, 6, 9}, c \in {2, 3, 6}}
          \cup {[i \in 1..k |-> IF i % p = 0 THEN 2 ELSE 3] : k \in {5, 7, 8}, p \in 2..3}
Next == UNCHANGED kinds
(* accessor identities are a permutation, so position and identity differ        *)
Emit == PrintT(ToJson([a |-> kinds,
                       n |-> [i \in 1..Len(kinds) |-> (i + kinds[i] + Len(kinds)) % 6],
                       id |-> [i \in 1..Len(kinds) |-> Len(kinds) + 1 - i]]))
(* Design: the pairs keep order and are as many as the pack is long.             *)
Flat == [j \in 1..(2 * Len(kinds)) |-> IF j % 2 = 1 THEN (j + 1) \div 2 ELSE 100 + j \div 2]
Law == LET p == Pairs(Flat) IN
         /\ Len(p) = Len(kinds)
         /\ \A i \in 1..Len(p) : p[i][2] = 100 + p[i][1]
         /\ Cardinality({p[i] : i \in 1..Len(p)}) = Len(p)
=============================================================================
