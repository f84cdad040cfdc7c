----------------------------- MODULE Trace_Lru ------------------------------
EXTENDS TraceSession, Lru
vars == <<b, l, lvars>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* The values (and key classes) alive in the process are those of the entries.
Matches == /\ Len(Ev.alive) = Len(ents')
           /\ ToSet(Ev.alive) = {ents'[i].v : i \in 1..Len(ents')}
           /\ Len(Ev.keys) = Len(ents')
           /\ {Eq(Ev.keys[i]) : i \in 1..Len(Ev.keys)} = {Eq(ents'[i].k) : i \in 1..Len(ents')}
TNext ==
  \/ Is("begin") /\ cap' = Ev.cap /\ ents' = <<>> /\ Matches
  \/ Is("get") /\ Lookup(Ev.k) /\ Ev.got = Found(Ev.k) /\ Matches
  \* two lookups: the first pointer stays valid.
  \/ Is("get2") /\ cap' = cap
     /\ LET a == Found(Ev.k)
            e1 == IF Pos(ents, Ev.k) = {} THEN ents
                  ELSE LET i == CHOOSE i \in Pos(ents, Ev.k) : TRUE IN <<ents[i]>> \o Without(ents, i)
            P == Pos(e1, Ev.m)
        IN /\ Ev.got = a /\ Ev.got2 = Found(Ev.m)
           /\ ents' = IF P = {} THEN e1 ELSE LET i == CHOOSE i \in P : TRUE IN <<e1[i]>> \o Without(e1, i)
     /\ Matches
  \/ Is("put") /\ Put(Ev.k, Ev.v, Ev.w) /\ Ev.got = Ev.v /\ Matches
  \/ Is("clear") /\ Clear /\ Matches
  \/ Is("end") /\ cap' = cap /\ ents' = <<>> /\ Matches
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ LInit(1)) /\ [][TNext]_vars
=============================================================================
