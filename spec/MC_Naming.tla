------------------------------ MODULE MC_Naming ------------------------------
(* Laws of the naming functions over all short paths.                         *)
EXTENDS Naming
CONSTANT N
Fs == {<<97>>, <<98>>, <<97, 98>>, Cp("@size"), Cp("a[\"k\"]"), Cp("Ext::a.B")}
VARIABLE p
Init == p = <<>>
Next == Len(p) < N /\ \E f \in Fs, x \in BOOLEAN : p' = Append(p, Seg(f, x))
Paths2 == {<<>>} \cup {<<Seg(f, x)>> : f \in Fs, x \in BOOLEAN}
Laws ==
  /\ ParseId(Full(p, TRUE)) = p                          \* ids read back
  /\ \A q \in Paths2 : Full(p \o q, TRUE) = Full(p, TRUE) \o Full(q, TRUE)   \* composition
  /\ \A q \in Paths2 : (Full(q, TRUE) = Full(p, TRUE)) => q = p
  /\ p # <<>> => /\ \E k \in 0..Len(p) : TableParent(p) = SubSeq(p, 1, k)
                 /\ Len(TableParent(p)) < Len(p)
  /\ \A q \in Paths2 : Cardinality({b \in {1, 2, 3} : (b = 1 /\ p = q) \/ (b = 2 /\ PathLt(p, q)) \/ (b = 3 /\ PathLt(q, p))}) = 1
==============================================================================
