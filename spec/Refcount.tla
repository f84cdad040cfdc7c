------------------------------ MODULE Refcount ------------------------------
(* Shared ownership counter.  One action per atomic step of the code:          *)
(*   increment         fetch_add(relaxed)                                      *)
(*   decrement         fetch_sub(acq_rel), "last" iff the old value was 1      *)
(*   skewed_decrement  load(acquire); if 1 then "last" else as decrement       *)
(* "use" stands for an access to the shared object by one of its owners; the   *)
(* thread told to be the last destroys the object, so every use has to happen  *)
(* before (in the C++ sense) its return.                                       *)
EXTENDS HB, Sequences, FiniteSets

CONSTANTS Threads, DecOrd, LoadOrd, ScriptSets

VARIABLES scripts, count, owned, todo, pc, falses, clk, rel, pend, usedAt, destroyed, raced

vars == <<scripts, count, owned, todo, pc, falses, clk, rel, pend, usedAt, destroyed, raced>>

Zero == [u \in Threads |-> 0]

Init ==
  /\ scripts \in ScriptSets
  /\ count = Cardinality(Threads)
  /\ owned = [t \in Threads |-> 1]
  /\ todo = scripts
  /\ pc = [t \in Threads |-> "idle"]
  /\ falses = 0
  /\ clk = [t \in Threads |-> Tick(Zero, t)]
  /\ rel = Zero
  /\ pend = [t \in Threads |-> Zero]
  /\ usedAt = Zero
  /\ destroyed = FALSE
  /\ raced = FALSE

Op(t, name) == todo[t] # <<>> /\ Head(todo[t]) = name /\ pc[t] = "idle"
Done(t) == todo' = [todo EXCEPT ![t] = Tail(@)]

Use(t) ==
  /\ Op(t, "use") /\ owned[t] > 0
  /\ Done(t)
  /\ clk' = [clk EXCEPT ![t] = Tick(@, t)]
  /\ usedAt' = [usedAt EXCEPT ![t] = clk'[t][t]]
  /\ raced' = (raced \/ destroyed)
  /\ UNCHANGED <<scripts, count, owned, pc, falses, rel, pend, destroyed>>

Increment(t) ==
  /\ Op(t, "inc") /\ owned[t] > 0
  /\ Done(t)
  /\ count' = count + 1
  /\ owned' = [owned EXCEPT ![t] = @ + 1]
  /\ pend' = [pend EXCEPT ![t] = Join(@, rel)]
  /\ raced' = (raced \/ destroyed)
  /\ UNCHANGED <<scripts, pc, falses, clk, rel, usedAt, destroyed>>

ReportLast(t, c) ==
  /\ falses' = falses + 1
  /\ destroyed' = TRUE
  /\ raced' = (raced \/ destroyed \/ \E u \in Threads : c[u] < usedAt[u])

FetchSub(t) ==
  /\ count' = count - 1
  /\ LET c == ReadClk(clk[t], rel, DecOrd) IN
       /\ clk' = [clk EXCEPT ![t] = c]
       /\ rel' = RmwRel(c, rel, Zero, DecOrd)
       /\ IF count = 1 THEN ReportLast(t, c)
          ELSE UNCHANGED <<falses, destroyed>> /\ raced' = (raced \/ destroyed)

Decrement(t) ==
  /\ Op(t, "dec") /\ owned[t] > 0
  /\ Done(t)
  /\ owned' = [owned EXCEPT ![t] = @ - 1]
  /\ FetchSub(t)
  /\ UNCHANGED <<scripts, pc, pend, usedAt>>

SkewedLoad(t) ==
  /\ Op(t, "skew") /\ owned[t] > 0
  /\ owned' = [owned EXCEPT ![t] = @ - 1]
  /\ LET c == ReadClk(clk[t], rel, LoadOrd) IN
       /\ clk' = [clk EXCEPT ![t] = c]
       /\ IF count = 1
          THEN /\ ReportLast(t, c)
               /\ Done(t)
               /\ UNCHANGED pc
          ELSE /\ pc' = [pc EXCEPT ![t] = "loaded"]
               /\ UNCHANGED <<todo, falses, destroyed, raced>>
  /\ UNCHANGED <<scripts, count, rel, pend, usedAt>>

SkewedSub(t) ==
  /\ pc[t] = "loaded"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ Done(t)
  /\ FetchSub(t)
  /\ UNCHANGED <<scripts, owned, pend, usedAt>>

Step(t) == Use(t) \/ Increment(t) \/ Decrement(t) \/ SkewedLoad(t) \/ SkewedSub(t)
Finished == \A t \in Threads : todo[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

NoOwners == \A t \in Threads : owned[t] = 0 /\ pc[t] = "idle"
AtMostOneLast == falses <= 1
LastMeansNoOwners == falses = 1 => \A t \in Threads : owned[t] = 0
NoRace == ~raced
AllReleased == Finished => (NoOwners /\ falses = 1)
EventuallyReclaimed == <>[](Finished => falses = 1)
=============================================================================
