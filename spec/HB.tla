--------------------------------- MODULE HB ---------------------------------
(* Happens-before bookkeeping for one atomic location, C++11 style, with       *)
(* vector clocks.  A thread's clock maps every thread to the last of its steps *)
(* known to have happened before.                                              *)
EXTENDS Integers

Max(a, b) == IF a >= b THEN a ELSE b
Join(a, b) == [u \in DOMAIN a |-> Max(a[u], b[u])]
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

IsAcq(ord) == ord \in {"acquire", "acq_rel", "seq_cst", "consume"}
IsRel(ord) == ord \in {"release", "acq_rel", "seq_cst"}

(* clk: clock of the acting thread, rel: clock published at the location,      *)
(* pend: clock read but not yet acquired, frel: clock of last release fence.   *)
ReadClk(clk, rel, ord) == IF IsAcq(ord) THEN Join(clk, rel) ELSE clk
ReadPend(pend, rel, ord) == IF IsAcq(ord) THEN pend ELSE Join(pend, rel)
(* a read-modify-write continues the release sequence *)
RmwRel(clk, rel, frel, ord) == Join(rel, IF IsRel(ord) THEN clk ELSE frel)
StoreRel(clk, frel, ord) == IF IsRel(ord) THEN clk ELSE frel
=============================================================================
