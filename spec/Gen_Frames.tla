----------------------------- MODULE Gen_Frames ------------------------------
(* All histories of Depth steps over two layouts and two frames, fields placed  *)
(* at the first free place; the laws of frames on every state.                  *)
EXTENDS Frames, TLC, Json, IOUtils
VARIABLE hist
gvars == <<fvars, hist>>
Depth == atoi(IOEnv.DEPTH)
Size(t) == CASE t = "c" -> 1 [] t = "i" -> 4 [] t = "k" -> 8 [] OTHER -> 16
Algn(t) == Size(t)
Up(x, al) == ((x + al - 1) \div al) * al
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
H(c) == hist' = Append(hist, c)
GInit == Init0 /\ hist = <<[op |-> "begin"]>>
GNext ==
  /\ Len(hist) <= Depth
  /\ \/ \E x \in 1..2 : lay[x].st = "none" /\ (x = 2 => lay[1].st = "built") /\ Open(x) /\ H([op |-> "nb", l |-> x])
     \/ \E x \in 1..2, t \in {"c", "i", "k", "p"} :
          Len(lay[x].fixed) < 3 /\ Add(x, t, Up(End(x), Algn(t)), Size(t), Algn(t)) /\ H([op |-> "add", l |-> x, t |-> t])
     \/ Sub(2, 1, Up(End(2), lay[1].align)) /\ H([op |-> "sub", l |-> 2, m |-> 1])
     \/ \E x \in 1..2 : Build(x, Up(End(x), lay[x].align), lay[x].align) /\ H([op |-> "build", l |-> x])
     \/ \E a \in 1..2, x \in 1..2, n \in 1..2 :
          Alloc(a, x, n, FALSE, SetSeq(Calls(a, x, n, Constructed)), <<>>) /\ H([op |-> "alloc", a |-> a, l |-> x, n |-> n, one |-> (n = 1)])
     \/ \E a \in 1..2, x \in 1..2 :
          Alloc(a, x, 1, TRUE, SetSeq(Calls(a, x, 1, Constructed)), <<>>) /\ H([op |-> "ma", a |-> a, l |-> x])
     \/ \E a \in 1..2 : Move(a, 3 - a, <<>>, IF mem[a].l = 0 THEN <<>> ELSE SetSeq(Calls(a, mem[a].l, 1, Destroyed)))
                        /\ H([op |-> "move", a |-> a, b |-> 3 - a, ctor |-> FALSE])
     \/ \E a \in 1..2 : Free(a, <<>>, SetSeq(Calls(a, mem[a].l, mem[a].n, Destroyed))) /\ H([op |-> "free", a |-> a, one |-> FALSE])
     \/ \E a \in 1..2 : mem[a].l # 0 /\ mem[a].val # <<>> /\ Len(mem[a].val[1]) > 0 /\
          Set(a, mem[a].n, Len(mem[a].val[1]), 3) /\ H([op |-> "set", a |-> a, k |-> mem[a].n, s |-> Len(mem[a].val[1]), v |-> 3])
GSpec == GInit /\ [][GNext]_gvars
\* Distinct cells of a frame array never share a byte, and all are aligned.
Cell(x, k, f) == (k - 1) * lay[x].size + lay[x].fld[f].off
Places == \A x \in 1..2 : lay[x].st = "built" =>
            \A k1, k2 \in 1..2 : \A f1, f2 \in 1..Len(lay[x].fld) :
              LET c1 == Cell(x, k1, f1)  c2 == Cell(x, k2, f2)
                  t1 == lay[x].fld[f1].t  t2 == lay[x].fld[f2].t
              IN /\ c1 % Algn(t1) = 0
                 /\ (k1 # k2 \/ f1 # f2) => c1 + Size(t1) <= c2 \/ c2 + Size(t2) <= c1
                 /\ c1 + Size(t1) <= k1 * lay[x].size
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
=============================================================================
