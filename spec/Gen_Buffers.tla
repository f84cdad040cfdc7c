----------------------------- MODULE Gen_Buffers -----------------------------
(* All histories of Depth operations on two buffers of strings and one foreign  *)
(* memory block.                                                                *)
EXTENDS Buffers, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
H(c) == hist' = Append(hist, c)
A == <<97, 97, 97>>
B == <<98>>
GInit == BInit /\ hist = <<>>
N(i) == Len(buf[i].el)
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in 1..2 :
           \/ Wrap(buf, i, 1, <<A, B, <<>>>>) /\ H([op |-> "wrap", i |-> i, x |-> 1, v |-> <<A, B, <<>>>>, base |-> 3])
           \/ Create(buf, i, <<B, A>>) /\ H([op |-> "create", i |-> i, v |-> <<B, A>>, how |-> "iter"])
           \/ \E j \in 1..2 :
                \/ N(j) >= 2 /\ Slice(buf, i, j, 1, N(j) - 1) /\ H([op |-> "slice", i |-> i, j |-> j, off |-> 1, n |-> N(j) - 1, tail |-> FALSE, mv |-> TRUE])
                \/ N(j) >= 2 /\ Slice(buf, i, j, 0, 1) /\ H([op |-> "slice", i |-> i, j |-> j, off |-> 0, n |-> 1, tail |-> FALSE, mv |-> FALSE])
                \/ N(j) >= 1 /\ Deep(buf, i, j) /\ H([op |-> "deep", i |-> i, j |-> j])
                \/ N(j) >= 1 /\ i # j /\ Copy(buf, i, j) /\ H([op |-> "shallow", i |-> i, j |-> j])
                \/ \E d \in {<<>>, <<<<>>>>, <<B>>} : N(j) >= 1 /\
                     LET ss == <<[k |-> "one", to |-> 0, from |-> N(j) - 1]>> IN
                     Reshuffle(buf, i, j, 2, d, ss, "full", 2) /\ H([op |-> "reshuffle", i |-> i, j |-> j, max |-> 2, def |-> d, steps |-> ss, how |-> "full", n |-> 2])
     \/ (\E i \in 1..2 : 1 \in buf[i].dep) /\ Scribble(buf, 1) /\ H([op |-> "scribble", x |-> 1])
GSpec == GInit /\ [][GNext]_<<bvars, hist>>
\* A buffer that depends on no foreign memory keeps its elements.
Stable == [][\A i \in 1..4 : (buf[i].dep = {} /\ hist'[Len(hist')].op = "scribble") => buf'[i] = buf[i]]_<<bvars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
