--------------------------- MODULE Trace_Refcount ---------------------------
(* Validates recorded interleavings of the real counter at the level of calls, *)
(* returns and the memory orders of its atomic steps; how many atomic steps a  *)
(* call takes is left open.                                                    *)
EXTENDS TraceSession, HB

Ts == 1..Len(Cur.threads)
VARIABLES owned, pending, clk, rel, pend, frel, usedAt, falses
vars == <<b, l, owned, pending, clk, rel, pend, frel, usedAt, falses>>

TInit ==
  /\ SessionInit
  /\ LET Z == [u \in Ts |-> 0] IN
     /\ owned = [t \in Ts |-> 1]
     /\ pending = [t \in Ts |-> "none"]
     /\ clk = [t \in Ts |-> Tick(Z, t)]
     /\ rel = Z /\ usedAt = Z
     /\ pend = [t \in Ts |-> Z] /\ frel = [t \in Ts |-> Z]
  /\ falses = 0

Use ==
  /\ Is("use") /\ owned[Ev.t] > 0 /\ falses = 0
  /\ clk' = [clk EXCEPT ![Ev.t] = Tick(@, Ev.t)]
  /\ usedAt' = [usedAt EXCEPT ![Ev.t] = clk'[Ev.t][Ev.t]]
  /\ UNCHANGED <<owned, pending, rel, pend, frel, falses>>

Call ==
  /\ Is("call") /\ owned[Ev.t] > 0 /\ pending[Ev.t] = "none"
  /\ pending' = [pending EXCEPT ![Ev.t] = Ev.fn]
  /\ owned' = [owned EXCEPT ![Ev.t] = IF Ev.fn = "inc" THEN @ ELSE @ - 1]
  /\ UNCHANGED <<clk, rel, pend, frel, usedAt, falses>>

Step ==
  /\ Is("step")
  /\ LET t == Ev.t
         k == Ev.kind
         o == Ev.ord
         c == IF k \in {"load", "rmw"} THEN ReadClk(clk[t], rel, o)
              ELSE IF k = "fence" /\ IsAcq(o) THEN Join(clk[t], pend[t])
              ELSE clk[t]
     IN /\ clk' = [clk EXCEPT ![t] = c]
        /\ pend' = IF k \in {"load", "rmw"}
                   THEN [pend EXCEPT ![t] = ReadPend(@, rel, o)] ELSE pend
        /\ frel' = IF k = "fence" /\ IsRel(o) THEN [frel EXCEPT ![t] = c] ELSE frel
        /\ rel' = CASE k = "rmw" -> RmwRel(c, rel, frel[t], o)
                    [] k = "store" -> StoreRel(c, frel[t], o)
                    [] OTHER -> rel
  /\ UNCHANGED <<owned, pending, usedAt, falses>>

RetNotLast ==
  /\ Is("ret") /\ Ev.res = TRUE /\ pending[Ev.t] # "none"
  /\ owned' = [owned EXCEPT ![Ev.t] = IF pending[Ev.t] = "inc" THEN @ + 1 ELSE @]
  /\ pending' = [pending EXCEPT ![Ev.t] = "none"]
  /\ UNCHANGED <<clk, rel, pend, frel, usedAt, falses>>

(* "last": nobody owns anything, nobody was told so before, and every access   *)
(* of every owner happened before this return.                                 *)
RetLast ==
  /\ Is("ret") /\ Ev.res = FALSE /\ pending[Ev.t] \in {"dec", "skew"}
  /\ falses = 0
  /\ \A u \in Ts : owned[u] = 0
  /\ \A u \in Ts : clk[Ev.t][u] >= usedAt[u]
  /\ falses' = 1
  /\ pending' = [pending EXCEPT ![Ev.t] = "none"]
  /\ UNCHANGED <<owned, clk, rel, pend, frel, usedAt>>

End == AtEnd /\ (\A t \in Ts : owned[t] = 0 /\ pending[t] = "none") /\ falses = 1 /\ UNCHANGED vars

TNext == Use \/ Call \/ Step \/ RetNotLast \/ RetLast \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
