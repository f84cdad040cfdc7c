------------------------------ MODULE TaskPool ------------------------------
(* Parallel execution of a list of tasks: workers draw the next index from a   *)
(* shared counter until it passes the end; the caller joins every worker.      *)
EXTENDS Integers, FiniteSets

CONSTANTS MaxTasks, MaxPar
VARIABLES n, par, next, wpc, wid, started, finished, returned
vars == <<n, par, next, wpc, wid, started, finished, returned>>

Min(a, b) == IF a <= b THEN a ELSE b
Workers == 1..Min(n, par)
AllW == 1..MaxPar

Init ==
  /\ n \in 0..MaxTasks /\ par \in 1..MaxPar
  /\ next = 1
  /\ wpc = [w \in AllW |-> "new"]
  /\ wid = [w \in AllW |-> 0]
  /\ started = [i \in 1..MaxTasks |-> 0]
  /\ finished = {}
  /\ returned = FALSE

Draw(w) ==
  /\ w \in Workers /\ wpc[w] \in {"new", "idle"}
  /\ next' = next + 1
  /\ IF next > n
     THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ UNCHANGED <<wid, started>>
     ELSE /\ wpc' = [wpc EXCEPT ![w] = "run"]
          /\ wid' = [wid EXCEPT ![w] = next]
          /\ started' = [started EXCEPT ![next] = @ + 1]
  /\ UNCHANGED <<n, par, finished, returned>>

Finish(w) ==
  /\ w \in Workers /\ wpc[w] = "run"
  /\ wpc' = [wpc EXCEPT ![w] = "idle"]
  /\ finished' = finished \cup {wid[w]}
  /\ UNCHANGED <<n, par, next, wid, started, returned>>

Return ==
  /\ ~returned /\ \A w \in Workers : wpc[w] = "exit"
  /\ returned' = TRUE
  /\ UNCHANGED <<n, par, next, wpc, wid, started, finished>>

Next == (\E w \in AllW : Draw(w) \/ Finish(w)) \/ Return \/ (returned /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Return) /\ \A w \in AllW : WF_vars(Draw(w) \/ Finish(w))

OncePerTask == \A i \in 1..MaxTasks : started[i] <= 1
Limit == Cardinality({w \in AllW : wpc[w] = "run"}) <= par
ReturnAfterAll == returned => finished = 1..n
EventuallyReturns == <>returned
=============================================================================
