---------------------------- MODULE Trace_RefPtr ----------------------------
EXTENDS TraceSession, RefPtr
vars == <<b, l, pvars>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
(* The observed targets of the handles and the observed destructor calls (one  *)
(* entry per call, in id order) are those of the specification.                *)
Matches == /\ Ev.targets = h'
           /\ ToSet(Ev.died) = dead' /\ Len(Ev.died) = Cardinality(dead')
           /\ ("moved" \in DOMAIN Ev => Ev.moved = 0)
TNext ==
  \/ Is("make") /\ Make(Ev.h) /\ Matches
  \/ Is("own") /\ Own(Ev.h) /\ Matches
  \/ Is("link") /\ Link(Ev.h, Ev.g) /\ Matches
  \/ Is("copy") /\ Copy(Ev.h, Ev.g) /\ Matches
  \/ Is("newref") /\ NewRef(Ev.h, Ev.g) /\ Matches
  \/ Is("move") /\ Move(Ev.h, Ev.g) /\ Matches
  \/ Is("reset") /\ Reset(Ev.h) /\ Matches
  \/ Is("null") /\ Null(Ev.h) /\ Matches
  \/ Is("swap") /\ Swap(Ev.h, Ev.g) /\ Matches
  \/ Is("next") /\ NextOf(Ev.h, Ev.g) /\ Matches
  \/ Is("temp") /\ Temp(Ev.h, Ev.g) /\ Matches
  \/ Is("begin") /\ Settle(h, nxt, n) /\ Matches
  \/ Is("end") /\ Settle([i \in Handles |-> 0], nxt, n) /\ Matches
  \/ AtEnd /\ AliveOf(h, nxt) = {} /\ UNCHANGED vars
TSpec == (SessionInit /\ PInit) /\ [][TNext]_vars
=============================================================================
