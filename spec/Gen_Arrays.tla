------------------------------ MODULE Gen_Arrays ------------------------------
(* All histories of Depth operations on two small arrays: the first two build   *)
(* them, the rest change their representation or combine them.                  *)
EXTENDS Arrays, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
H(c) == hist' = Append(hist, c)
\* literals: contents, ids stored explicitly, value elsewhere
Lits == {[v |-> <<3, M, 0, 3>>, ids |-> <<0, 1, 2, 3>>, miss |-> M], [v |-> <<3, M, 0, 3>>, ids |-> <<1, 2>>, miss |-> 3],
         [v |-> <<M, 2, M, M>>, ids |-> <<1>>, miss |-> M], [v |-> <<M, 2, M, M>>, ids |-> <<1, 3>>, miss |-> M],
         [v |-> <<2, M, 0, 2>>, ids |-> <<0, 1, 2>>, miss |-> 2],
         [v |-> <<M, M, M, 2>>, ids |-> <<3>>, miss |-> M],
         [v |-> <<2, 2, 2, 2>>, ids |-> <<>>, miss |-> 2], [v |-> <<2, 2, 0, 2>>, ids |-> <<0, 1, 2, 3>>, miss |-> M]}
GInit == AInit /\ hist = <<>>
Lit(i) == \E x \in Lits, o \in {0, 2} : Set(i, x.v) /\
             H([op |-> "lit", i |-> i, v |-> x.v, ids |-> x.ids, miss |-> x.miss, off |-> o, shift |-> o, bm |-> o = 2])
GNext ==
  \/ Len(hist) = 0 /\ Lit(1)
  \/ Len(hist) = 1 /\ Lit(2)
  \/ Len(hist) \in 2..(Depth - 1) /\ \E i \in 1..2 :
       \/ \E j \in 1..2, m \in {M, 2} :
            \/ \E ids \in {<<>>, <<1>>, <<0, 2>>, <<0, 1, 2, 3>>} :
                 Len(arr[j]) = 4 /\ Set(i, WithIds(arr[j], In(ids), m)) /\ H([op |-> "with", i |-> i, j |-> j, ids |-> ids, m |-> m, off |-> 1])
            \/ Set(i, arr[j]) /\ H([op |-> "same", i |-> i, j |-> j, how |-> "sparse", m |-> m])
       \/ \E j \in 1..2, o \in 0..2 : Len(arr[j]) = 4 /\ Set(i, Sub(arr[j], o, 2)) /\ H([op |-> "slice", i |-> i, j |-> j, off |-> o, n |-> 2])
       \/ \E f \in {"or", "add", "div", "drop"} : SameSizes(f, <<arr[1], arr[2]>>) /\
            IF PwOk(f, <<arr[1], arr[2]>>) THEN Set(i, Pointwise(f, <<arr[1], arr[2]>>)) /\ H([op |-> "pw", i |-> i, f |-> f, js |-> <<1, 2>>])
            ELSE Same /\ H([op |-> "pw", i |-> i, f |-> f, js |-> <<1, 2>>])
GSpec == GInit /\ [][GNext]_<<avars, hist>>
\* missing exactly when a required argument is missing, for the total functions
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
===============================================================================
