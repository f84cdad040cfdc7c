----------------------------- MODULE Trace_Iter -----------------------------
EXTENDS TraceSession, Iter
vars == <<b, l, ivars>>
(* Everything observable of the two iterators after the step.                  *)
Obs == /\ (Has(Ev, "far") => Ev.far)
       /\ Ev.diff = p' - q' /\ Ev.rdiff = q' - p'
       /\ Ev.eq = (p' = q') /\ Ev.ne = (p' # q')
       /\ Ev.lt = (p' < q') /\ Ev.gt = (p' > q')
       /\ Ev.le = (p' <= q') /\ Ev.ge = (p' >= q')
       /\ (p' < n => Ev.deref = Value(p') /\ Ev.arrow = Value(p'))
       /\ Ev.items = [i \in 1..(n - p') |-> Value(p' + i - 1)]
       /\ Ev.back = [i \in 1..p' |-> Value(p' - i)]
Old(v) == v < n => Ev.old = Value(v)
TNext ==
  \/ Is("begin") /\ UNCHANGED ivars /\ Obs
  \/ Is("add") /\ MoveTo(p + Ev.n) /\ Obs
  \/ Is("sub") /\ MoveTo(p - Ev.n) /\ Obs
  \/ Is("plus") /\ MoveTo(p + Ev.n) /\ Obs
  \/ Is("rplus") /\ MoveTo(p + Ev.n) /\ Obs
  \/ Is("minus") /\ MoveTo(p - Ev.n) /\ Obs
  \/ Is("inc") /\ MoveTo(p + 1) /\ Obs
  \/ Is("dec") /\ MoveTo(p - 1) /\ Obs
  \/ Is("postinc") /\ MoveTo(p + 1) /\ Obs /\ Old(p)
  \/ Is("postdec") /\ MoveTo(p - 1) /\ Obs /\ Old(p)
  \/ Is("swap") /\ Swap /\ Obs
  \/ AtEnd /\ UNCHANGED vars
TInit == SessionInit /\ p = 0 /\ n = Cur.n /\ q = n
TSpec == TInit /\ [][TNext]_vars
=============================================================================
