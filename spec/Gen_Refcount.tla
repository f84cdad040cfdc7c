---------------------------- MODULE Gen_Refcount ----------------------------
(* Enumerates complete behaviours: scripts plus the order in which threads     *)
(* take atomic steps.                                                          *)
EXTENDS Refcount, TLC, Json, IOUtils
VARIABLE hist
GThreads == 1..atoi(IOEnv.NT)
Basic == {<<"dec">>, <<"skew">>}
Full == {<<"use", "dec">>, <<"use", "skew">>, <<"inc", "dec", "skew">>,
         <<"inc", "skew", "use", "dec">>}
GScripts == [GThreads -> IF atoi(IOEnv.NT) = 2 THEN Basic \cup Full
                         ELSE Basic \cup {<<"use", "skew">>}]
GInit == Init /\ hist = <<>>
GNext == \E t \in Threads : Step(t) /\ hist' = Append(hist, t)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Finished => PrintT(ToJson([threads |-> [t \in 1..Cardinality(Threads) |-> scripts[t]], sched |-> hist]))
=============================================================================
