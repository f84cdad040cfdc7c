------------------------------- MODULE MC_Eval -------------------------------
(* Binding a graph to slots.  Nodes are compiled in order; a slot is free for    *)
(* another node after the last use of what is in it, where a node that only       *)
(* renames its argument (a field, an annotation, a presence bit) extends the life  *)
(* of the argument's slot.  Literals have slots of their own, inputs are given up  *)
(* only when that is allowed, and the output has its place.  Then the program is   *)
(* run, twice when the inputs are kept.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Broken
VARIABLES dag, over, root, sides, phase, i, slotof, own, origin, last, free, next, prog, mem, pc, rep
vars == <<dag, over, root, sides, phase, i, slotof, own, origin, last, free, next, prog, mem, pc, rep>>
(* A node: kind and arguments.  Leaves first.                                       *)
Kinds(j) == {<<"op", a, b>> : a \in 1..(j - 1), b \in 1..(j - 1)} \cup {<<"ren", a, a>> : a \in 1..(j - 1)}
Heads == {<<"leaf", 0, 0>>, <<"lit", 0, 0>>}
Args(n) == IF n[1] \in {"leaf", "lit"} THEN {} ELSE {n[2], n[3]}
RECURSIVE Dags(_)
Dags(k) == IF k = 1 THEN {<<<<"leaf", 0, 0>>>>}
           ELSE IF k = 2 THEN {Append(<<<<"leaf", 0, 0>>>>, h) : h \in Heads}
           ELSE {Append(d, n) : d \in Dags(k - 1), n \in Kinds(k)}
Outputs == {root} \cup sides
(* The root of all, node N + 1, uses the outputs.                                    *)
Deps(j) == IF j = N + 1 THEN Outputs ELSE Args(dag[j])
Uses(j) == {k \in (j + 1)..(N + 1) : j \in Deps(k)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Init ==
  /\ dag \in Dags(N)
  /\ over \in BOOLEAN
  /\ root \in 1..N
  /\ sides \in {s \in SUBSET (1..N) : Cardinality(s) <= 1}
  /\ \A j \in 1..N : Uses(j) # {}
  /\ phase = "bind" /\ i = 1
  /\ slotof = [j \in 1..N |-> 0]
  (* the slot a node may give back, 0 if none *)
  /\ own = [j \in 1..N |-> IF over /\ dag[j][1] = "leaf" THEN j ELSE 0]
  /\ origin = [j \in 1..N |-> j]
  /\ last = [j \in 1..N |-> MaxOf(Uses(j))]
  /\ free = <<>>
  (* slots 1 and 2 hold the inputs, slot 3 the output *)
  /\ next = 4 /\ prog = <<>> /\ pc = 1 /\ rep = 1
  /\ mem = [s \in 1..(N + 4) |-> IF s <= 2 /\ dag[s][1] = "leaf" THEN s ELSE 0]
RECURSIVE Class(_)
Class(j) == IF dag[j][1] = "ren" THEN Class(dag[j][2]) ELSE j
Release(o, l, own1) == {o[d] : d \in {d \in Deps(i) : l[o[d]] = i /\ own1[o[d]] # 0}}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN Append(SeqOf(S \ {x}), x)
(* What node i does: its slot, instructions, and what it takes.                       *)
Bind ==
  /\ phase = "bind" /\ i <= N
  /\ LET n == dag[i]
         isroot == i = root
         fresh == IF free # <<>> THEN free[Len(free)] ELSE next
         inherits == ~isroot /\ n[1] # "op"
         src == IF n[1] = "ren" THEN n[2] ELSE i
         o1 == IF inherits THEN [origin EXCEPT ![i] = origin[src]] ELSE origin
         l1 == IF inherits /\ ~Broken THEN [last EXCEPT ![origin[src]] = IF @ > last[i] THEN @ ELSE last[i]] ELSE last
         where == IF n[1] = "leaf" THEN i ELSE IF n[1] = "lit" THEN next ELSE IF n[1] = "ren" THEN slotof[n[2]] ELSE fresh
         slot == IF isroot THEN 3 ELSE where
         own1 == IF n[1] = "op" /\ ~isroot THEN [own EXCEPT ![i] = fresh] ELSE own
         gone == Release(o1, l1, own1)
         free1 == IF n[1] = "op" /\ ~isroot /\ free # <<>> THEN SubSeq(free, 1, Len(free) - 1) ELSE free IN
     /\ slotof' = [slotof EXCEPT ![i] = slot]
     /\ origin' = o1 /\ last' = l1
     /\ prog' = IF n[1] = "op" THEN Append(prog, <<i, slot, <<slotof[n[2]], slotof[n[3]]>>, <<Class(n[2]), Class(n[3])>>>>)
                ELSE IF isroot THEN Append(prog, <<Class(i), slot, <<where>>, <<Class(i)>>>>)
                ELSE prog
     /\ mem' = IF n[1] = "lit" THEN [mem EXCEPT ![next] = i] ELSE mem
     /\ next' = IF n[1] = "lit" \/ (n[1] = "op" /\ ~isroot /\ free = <<>>) THEN next + 1 ELSE next
     /\ own' = [j \in 1..N |-> IF j \in gone THEN 0 ELSE own1[j]]
     /\ free' = free1 \o [k \in 1..Cardinality(gone) |-> own1[SeqOf(gone)[k]]]
  /\ i' = i + 1
  /\ UNCHANGED <<dag, over, root, sides, phase, pc, rep>>
Start == phase = "bind" /\ i > N /\ phase' = "run" /\ UNCHANGED <<dag, over, root, sides, i, slotof, own, origin, last, free, next, prog, mem, pc, rep>>
Step == /\ phase = "run" /\ pc <= Len(prog)
        /\ mem' = [mem EXCEPT ![prog[pc][2]] = prog[pc][1]]
        /\ pc' = pc + 1
        /\ UNCHANGED <<dag, over, root, sides, phase, i, slotof, own, origin, last, free, next, prog, rep>>
(* The next row: the inputs are written again only if they may have been lost.         *)
Again == /\ phase = "run" /\ pc > Len(prog) /\ rep = 1
         /\ pc' = 1 /\ rep' = 2
         /\ mem' = [s \in DOMAIN mem |-> IF over /\ s <= 2 /\ dag[s][1] = "leaf" THEN s ELSE mem[s]]
         /\ UNCHANGED <<dag, over, root, sides, phase, i, slotof, own, origin, last, free, next, prog>>
Next == Bind \/ Start \/ Step \/ Again
Spec == Init /\ [][Next]_vars
(* Every instruction finds its arguments.                                               *)
Reads == TRUE = (phase # "run" \/ pc > Len(prog) \/ (\A k \in 1..Len(prog[pc][3]) : mem[prog[pc][3][k]] = prog[pc][4][k]))
Results == TRUE = (phase # "run" \/ pc <= Len(prog) \/ (\A o \in Outputs : mem[slotof[o]] = Class(o)))
Inputs == TRUE = (over \/ (\A s \in 1..2 : dag[s][1] # "leaf" \/ mem[s] = s))
Inv == Reads /\ Results /\ Inputs
=============================================================================
