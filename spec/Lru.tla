-------------------------------- MODULE Lru ---------------------------------
(* A bounded cache: entries [k, v, w] from the most to the least recently used. *)
(* Keys are compared by their class Eq(k).                                      *)
EXTENDS Integers, Sequences
VARIABLES cap, ents
lvars == <<cap, ents>>

Eq(k) == k \div 10
RECURSIVE Weight(_)
Weight(s) == IF s = <<>> THEN 0 ELSE Head(s).w + Weight(Tail(s))
Pos(s, k) == {i \in 1..Len(s) : Eq(s[i].k) = Eq(k)}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Evict(_, _)
Evict(s, c) == IF Len(s) > 1 /\ Weight(s) > c THEN Evict(SubSeq(s, 1, Len(s) - 1), c) ELSE s

\* The value found under k, 0 if none.
Found(k) == IF Pos(ents, k) = {} THEN 0 ELSE ents[CHOOSE i \in Pos(ents, k) : TRUE].v

LInit(c) == cap = c /\ ents = <<>>
Lookup(k) ==
  /\ cap' = cap
  /\ ents' = IF Pos(ents, k) = {} THEN ents
             ELSE LET i == CHOOSE i \in Pos(ents, k) : TRUE
                  IN <<ents[i]>> \o Without(ents, i)
Put(k, v, w) ==
  /\ cap' = cap
  /\ ents' = IF Pos(ents, k) = {} THEN Evict(<<[k |-> k, v |-> v, w |-> w]>> \o ents, cap)
             ELSE LET i == CHOOSE i \in Pos(ents, k) : TRUE
                  IN Evict(<<[k |-> k, v |-> v, w |-> w]>> \o Without(ents, i), cap)
Clear == cap' = cap /\ ents' = <<>>

Bounded == Len(ents) <= 1 \/ Weight(ents) <= cap
Unique == \A i, j \in 1..Len(ents) : Eq(ents[i].k) = Eq(ents[j].k) => i = j
\* The most recently used entry is lost only to an entry it does not fit beside.
KeepsLast == [][ents' # <<>> /\ ents # <<>> =>
                  Pos(ents', ents[1].k) # {} \/ ents'[1].w + ents[1].w > cap]_lvars
=============================================================================
