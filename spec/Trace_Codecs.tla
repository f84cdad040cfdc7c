---------------------------- MODULE Trace_Codecs ----------------------------
EXTENDS TraceBase, Codecs
(* Among the first n steps.                                                    *)
Count(ks, n, k) == Len(SelectSeq(SubSeq(ks, 1, n), LAMBDA x : x = k))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Whole(e, got) == got.ok /\ got.vals = Contents(e.vals) /\ got.exprs = Contents(e.exprs)
Ok(e) ==
  /\ e.enc /\ e.parsed
  /\ Whole(e, e.got) /\ e.same
  /\ Whole(e, e.raw)
  (* every output comes after all that it is made of                            *)
  /\ e.short.ok
  /\ e.short.vals = SubSeq(e.got.vals, 1, Count(e.kinds, e.at, "outv"))
  /\ e.short.exprs = SubSeq(e.got.exprs, 1, Count(e.kinds, e.at, "oute"))
  (* a lost output is missing; any other lost step is noticed                   *)
  /\ IF e.kinds = <<>> THEN TRUE ELSE
     LET k == e.kinds[e.lost + 1] IN
     CASE k = "outv" -> e.gap.ok /\ e.gap.vals = Without(e.got.vals, Count(e.kinds, e.lost + 1, k)) /\ e.gap.exprs = e.got.exprs
       [] k = "oute" -> e.gap.ok /\ e.gap.exprs = Without(e.got.exprs, Count(e.kinds, e.lost + 1, k)) /\ e.gap.vals = e.got.vals
       [] k = "none" -> e.gap = e.got
       [] k = "part" -> ~e.gap.ok
  /\ IF e.emptied THEN ~e.hollow.ok ELSE e.hollow = e.got
  /\ e.guess = e.got
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
