---------------------------- MODULE Trace_Cancel ----------------------------
EXTENDS TraceSession, Cancel
vars == <<b, l, cvars>>
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
Matches ==
  /\ Distinct(Ev.called) /\ ToSet(Ev.called) = called'
  /\ Distinct(Ev.alive) /\ ToSet(Ev.alive) = {x.id : x \in reg'}
  /\ ToSet(Ev.own) = {<<c, st'[c]>> : c \in own'}
  \* every callback saw the reason
  /\ \A i \in 1..Len(Ev.seen) : Ev.seen[i][2] = st'[Ev.seen[i][1]] /\ Ev.seen[i][2] # 0
  /\ Len(Ev.cur) = 3
  /\ \A t \in Threads :
       LET c == CurOf(stack', t) IN
       /\ Ev.cur[t][1] = c /\ Ev.cur[t][2] = Check(st', stack', t)
       /\ Ev.cur[t][3] = (Check(st', stack', t) # 0)
       /\ Ev.cur[t][4] = c
TNext ==
  \/ Is("make") /\ Make(Ev.c) /\ Matches
  \/ Is("drop") /\ Drop(Ev.c) /\ Matches
  \/ Is("cancel") /\ Cancel(Ev.c, Ev.r) /\ Matches
  \/ Is("sub") /\ Sub(Ev.c, Ev.h, Ev.id, Ev.act, Ev.arg) /\ Matches
  \/ Is("unsub") /\ Unsub(Ev.h) /\ Matches
  \/ Is("detach") /\ Detach(Ev.h) /\ Matches
  \/ Is("move") /\ Move(Ev.h, Ev.g) /\ Matches
  \/ Is("push") /\ Push(Ev.t, Ev.c) /\ Matches
  \/ Is("pushnew") /\ PushNew(Ev.t) /\ Matches
  \/ Is("take") /\ Take(Ev.t) /\ Matches
  \/ Is("pop") /\ Pop(Ev.t) /\ Matches
  \/ Is("begin") /\ Settle(<<>>, {}, [t \in Threads |-> <<>>], {}, [h \in Handles |-> 0], [h \in Handles |-> 0], {}) /\ Matches
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ CInit) /\ [][TNext]_vars
=============================================================================
