------------------------------- MODULE MC_Shell ------------------------------
(* Every short text over the special characters: the escaping delivers it.     *)
(* Strong = FALSE is the escaping in use: it leaves "$name" to the shell, the  *)
(* only texts it does not deliver.                                            *)
EXTENDS Shell
CONSTANTS N, Strong
Chars == {97, Dollar, Quote, Back, Tick, 64, NL, 60}
VARIABLE s
Init == s \in {<<>>, Cp("$(location a)")}
Next == Len(s) < N /\ \E c \in Chars : s' = Append(s, c)
View == s
Leaves(t) == \E i \in 1..(Len(t) - 1) : t[i] = Dollar /\ t[i + 1] \in Starts
Laws ==
  /\ LET a == Arrives(Esc(s, Strong)) IN
     /\ a.ok /\ a.out = s
     /\ (Strong \/ ~Leaves(s)) => ~a.exp
     /\ ~Strong /\ Leaves(s) => a.exp
  /\ LET a == Arrives(EscVars(s, Strong)) IN
     /\ a.ok /\ a.out = WantedFrom(s, 1)
     /\ Strong => ~a.exp
==============================================================================
