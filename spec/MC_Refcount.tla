---------------------------- MODULE MC_Refcount ----------------------------
EXTENDS Refcount, TLC, Json
(* Scripts release what they acquire: every thread starts owning one unit.     *)
Basic == {<<"dec">>, <<"skew">>}
Full == {<<"use", "dec">>, <<"use", "skew">>, <<"inc", "dec", "skew">>,
         <<"inc", "skew", "use", "dec">>}
MCThreads == {1, 2, 3}
MCScripts == [MCThreads -> Basic \cup Full]
=============================================================================
