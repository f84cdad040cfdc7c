------------------------------- MODULE Frames --------------------------------
(* Frame layouts and the memory of frames.                                      *)
(*   lay[x]  : st "none" | "open" | "built"; fld - the fields [off, t] in the   *)
(*             order they were added (those of a sub-frame shifted);            *)
(*             regs - the registered pairs <<off, t>>; fixed - the field groups *)
(*             of AddSlot / AddSubFrame as byte intervals; size, align.         *)
(*   mem[a]  : l - the layout (0: no memory); n - copies; val[k][f] - values.   *)
(* Where a field is placed is not prescribed: only that places are aligned,     *)
(* inside the frame and disjoint, and that fields of one type added one after   *)
(* the other form an array.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES lay, mem
fvars == <<lay, mem>>

Types == {"c", "s", "i", "d", "t", "p", "n", "k", "g", "z", "o", "y"}
\* Value right after initialization.
Default(t) == CASE t = "n" -> 5 [] t = "k" -> 7 [] t = "g" -> 9 [] OTHER -> 0
Constructed == {"k", "g"}      \* constructors the driver can see
Destroyed == {"k", "g", "z"}   \* destructors the driver can see
\* Fields of structs: offset inside the struct and type, recursively.
Subs(t) == CASE t = "o" -> {<<0, "d">>, <<8, "y">>, <<8, "s">>, <<10, "s">>, <<12, "i">>}
             [] t = "y" -> {<<0, "s">>, <<2, "s">>}
             [] OTHER -> {}

NoLay == [st |-> "none", fld |-> <<>>, regs |-> {}, fixed |-> <<>>, size |-> 0, align |-> 1]
NoMem == [l |-> 0, n |-> 0, own |-> FALSE, val |-> <<>>]
Init0 == lay = [i \in 1..3 |-> NoLay] /\ mem = [i \in 1..3 |-> NoMem]
Used(x) == \E a \in 1..3 : mem[a].l = x

Disjoint(lo, n, iv) == \A i \in 1..Len(iv) : lo + n <= iv[i][1] \/ iv[i][1] + iv[i][2] <= lo \/ n = 0 \/ iv[i][2] = 0

Open(x) == /\ ~Used(x)
           /\ lay' = [lay EXCEPT ![x] = [NoLay EXCEPT !.st = "open"]] /\ UNCHANGED mem
\* A field of type t (size n, alignment al) was placed at off.
Add(x, t, off, n, al) ==
  /\ lay[x].st = "open"
  /\ off >= 0 /\ off % al = 0
  /\ Disjoint(off, n, lay[x].fixed) = TRUE
  /\ LET f == lay[x].fld IN TRUE = (
       (f # <<>> /\ f[Len(f)].t = t /\ lay[x].fixed[Len(lay[x].fixed)] = <<f[Len(f)].off, n>>) => off = f[Len(f)].off + n)
  /\ lay' = [lay EXCEPT ![x].fld = Append(@, [off |-> off, t |-> t]),
                        ![x].fixed = Append(@, <<off, n>>),
                        ![x].align = IF al > @ THEN al ELSE @,
                        ![x].regs = @ \cup {<<off, t>>} \cup {<<off + s[1], s[2]>> : s \in Subs(t)}]
  /\ UNCHANGED mem
Sub(x, m, off) ==
  /\ lay[x].st = "open" /\ lay[m].st = "built"
  /\ off >= 0 /\ off % lay[m].align = 0
  /\ Disjoint(off, lay[m].size, lay[x].fixed) = TRUE
  /\ lay' = [lay EXCEPT ![x].fld = @ \o [i \in 1..Len(lay[m].fld) |-> [off |-> off + lay[m].fld[i].off, t |-> lay[m].fld[i].t]],
                        ![x].fixed = Append(@, <<off, lay[m].size>>),
                        ![x].align = IF lay[m].align > @ THEN lay[m].align ELSE @,
                        ![x].regs = @ \cup {<<off + r[1], r[2]>> : r \in lay[m].regs}]
  /\ UNCHANGED mem
End(x) == LET S == {lay[x].fixed[i][1] + lay[x].fixed[i][2] : i \in 1..Len(lay[x].fixed)} \cup {0}
          IN CHOOSE e \in S : \A d \in S : d <= e
\* Registering a view of an existing part of the frame.
Reg(x, off, t, n, dup, ok) ==
  /\ lay[x].st = "open"
  /\ TRUE = ((off + n <= End(x) /\ (dup \/ <<off, t>> \notin lay[x].regs)) => ok)
  /\ TRUE = ((<<off, t>> \in lay[x].regs /\ ~dup) => ~ok)
  /\ TRUE = (off + n > End(x) + 16 => ~ok)
  /\ lay' = [lay EXCEPT ![x].regs = IF ok THEN @ \cup {<<off, t>>} ELSE @]
  /\ UNCHANGED mem
Build(x, size, align) ==
  /\ lay[x].st = "open"
  /\ size >= End(x) /\ align >= lay[x].align /\ align % lay[x].align = 0 /\ size % align = 0
  /\ lay' = [lay EXCEPT ![x].st = "built", ![x].size = size, ![x].align = align]
  /\ UNCHANGED mem

Fresh(x, n) == [k \in 1..n |-> [f \in 1..Len(lay[x].fld) |-> Default(lay[x].fld[f].t)]]
\* Constructor / destructor calls due for n copies of a layout.
Calls(a, x, n, kinds) == {<<a, k, lay[x].fld[f].off, lay[x].fld[f].t>> :
                            k \in 1..n, f \in {f \in 1..Len(lay[x].fld) : lay[x].fld[f].t \in kinds}}
Exactly(log, set) == Len(log) = Cardinality(set) /\ {log[i] : i \in 1..Len(log)} = set
Alloc(a, x, n, own, born, died) ==
  /\ lay[x].st = "built" /\ mem[a].l = 0
  /\ mem' = [mem EXCEPT ![a] = [l |-> x, n |-> n, own |-> own, val |-> Fresh(x, n)]]
  /\ Exactly(born, Calls(a, x, n, Constructed)) /\ Exactly(died, {})
  /\ UNCHANGED lay
Free(a, born, died) ==
  /\ mem[a].l # 0
  /\ Exactly(died, Calls(a, mem[a].l, mem[a].n, Destroyed)) /\ Exactly(born, {})
  /\ mem' = [mem EXCEPT ![a] = NoMem]
  /\ UNCHANGED lay
\* Owner a drops its own frame and takes over the one of b.
Move(a, b, born, died) ==
  /\ a # b /\ mem[b].own /\ TRUE = (mem[a].l # 0 => mem[a].own)
  /\ Exactly(born, {})
  /\ Exactly(died, IF mem[a].l = 0 THEN {} ELSE Calls(a, mem[a].l, 1, Destroyed))
  /\ mem' = [mem EXCEPT ![a] = mem[b], ![b] = NoMem]
  /\ UNCHANGED lay
Set(a, k, f, v) ==
  /\ mem[a].l # 0
  /\ mem' = [mem EXCEPT ![a].val[k][f] = v]
  /\ UNCHANGED lay
=============================================================================
