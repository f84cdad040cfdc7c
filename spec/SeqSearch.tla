----------------------------- MODULE SeqSearch -----------------------------
(* The exponential search as a state machine.  Of the sequence only its length *)
(* n and the position lb of the first element not before the key matter.       *)
(* Positions are 0-based.  Guarded = FALSE is the search as it was found: it   *)
(* moves its cursor beyond the end (finding F1 in DESIGN.md).                  *)
EXTENDS Integers

CONSTANTS MaxLen, Guarded
VARIABLES n, lb, first, it, last, count, step, done
vars == <<n, lb, first, it, last, count, step, done>>
Init ==
  /\ n \in 0..MaxLen /\ lb \in 0..n
  /\ first = 0 /\ it = 0 /\ last = n /\ count = n /\ step = 1 /\ done = FALSE
Before(i) == i < lb
Grow ==
  /\ ~done /\ step < count /\ Before(it)
  /\ first' = it + 1
  /\ count' = count - step /\ step' = 2 * step
  /\ it' = IF Guarded /\ step' >= count' THEN it + 1 ELSE it + 1 + step
  /\ UNCHANGED <<n, lb, last, done>>
Narrow ==
  /\ ~done /\ step < count /\ ~Before(it)
  /\ last' = it /\ done' = TRUE
  /\ UNCHANGED <<n, lb, first, it, count, step>>
Stop ==
  /\ ~done /\ step >= count /\ done' = TRUE
  /\ UNCHANGED <<n, lb, first, it, last, count, step>>
Next == Grow \/ Narrow \/ Stop \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bracketed == first <= lb /\ lb <= last
InBounds == it <= n
Terminates == <>done
=============================================================================
