---------------------------- MODULE Gen_ExprReg ----------------------------
EXTENDS ExprReg, TLC, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
Names == {<<"a">>, <<"a", "b">>, <<"b">>}
GInit == EInit /\ hist = <<[op |-> "begin"]>>
Do(e) == hist' = Append(hist, e)
GNext ==
  /\ Len(hist) <= Depth
  /\ \/ \E n \in Names : EReg(n, Len(hist)) /\ Do([op |-> "ereg", name |-> n, id |-> Len(hist)])
     \/ \E n, t \in Names : ERef(n, t) /\ Do([op |-> "eref", name |-> n, to |-> t])
     \/ \E n, t \in Names : n # t /\ EAlias(n, t) /\ Do([op |-> "ealias", name |-> n, to |-> t])
     \/ \E n \in Names : EUnreg(n) /\ Do([op |-> "eunreg", name |-> n])
GSpec == GInit /\ [][GNext]_<<evars, hist>>
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
=============================================================================
