---------------------------- MODULE Gen_Registry ----------------------------
(* All short histories of registrations and lookups of one operator.            *)
EXTENDS Registry, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
I32 == [s |-> "i32", k |-> 0]
I64 == [s |-> "i64", k |-> 0]
F32 == [s |-> "f32", k |-> 0]
OI32 == [s |-> "i32", k |-> 1]
WF == [s |-> "wf", k |-> 0]
F64 == [s |-> "f64", k |-> 0]
Lists == {<<I32>>, <<I64>>, <<OI32>>, <<WF>>, <<F64>>}
F == <<102>>
GInit == RInit /\ hist = <<[op |-> "begin"]>>
GNext ==
  /\ Len(hist) <= Depth
  /\ \/ \E ins \in Lists, p \in {0, 1, 2}, out \in {F32, F64} :
          /\ (p = 2 => out = F32)
          /\ Reg(F, ins, out, p, Len(hist))
          /\ hist' = Append(hist, [op |-> "reg", name |-> F, ins |-> ins, out |-> out, prio |-> p, id |-> Len(hist)])
     \/ /\ Len(hist) = 2
        /\ Fam(F, Len(hist), CanFam(F)) /\ hist' = Append(hist, [op |-> "fam", name |-> F, id |-> Len(hist)])
GSpec == GInit /\ [][GNext]_<<rvars, hist>>
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
=============================================================================
