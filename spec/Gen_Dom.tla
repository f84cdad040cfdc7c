------------------------------- MODULE Gen_Dom ------------------------------
(* All graphs on up to NMAX nodes as successor sets.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
NMax == atoi(IOEnv.NMAX)
VARIABLE g
Init == g = << <<>> >>
Next == /\ Len(g) < NMax
        /\ \E P \in SUBSET (0..(Len(g) - 1)) \ {{}} :
             g' = [i \in 1..(Len(g) + 1) |->
                     IF i > Len(g) THEN <<>>
                     ELSE IF i - 1 \in P THEN Append(g[i], Len(g)) ELSE g[i]]
Emit == PrintT(ToJson(g))
=============================================================================
