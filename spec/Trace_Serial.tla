---------------------------- MODULE Trace_Serial ----------------------------
EXTENDS TraceBase, Serial
(* A container in the old form brings codecs first and outputs last.           *)
Blank == [k |-> "none", i |-> 0, h |-> <<>>, miss |-> FALSE, key |-> "", v |-> 0, vs |-> <<>>, es |-> <<>>, c |-> -1, p |-> [t |-> "", x |-> ""]]
Whole(e) ==
  [j \in 1..Len(e.codecs) |-> [Blank EXCEPT !.k = "codec", !.i = j - 1, !.key = e.codecs[j]]]
  \o e.steps
  \o [j \in 1..Len(e.outv) |-> [Blank EXCEPT !.k = "outv", !.v = e.outv[j]]]
  \o [j \in 1..Len(e.oute) |-> [Blank EXCEPT !.k = "oute", !.v = e.oute[j]]]
Same(e, st) == /\ e.ok = st.ok
               /\ e.ok => e.vals = st.vals /\ e.exprs = st.exprs
DecodeOk(e) ==
  IF e.via = "steps" THEN Same(e, Run(Start(e.infer), e.steps, 1))
  ELSE IF e.version \notin {1, 2} THEN ~e.ok
  ELSE Same(e, Run(Start(e.infer), Whole(e), 1))
(* The steps written are for the decoder specified; nothing is written twice.  *)
EncodeOk(e) ==
  LET st == Run(Start(TRUE), e.steps, 1)
      want == AllParts(e.ns, e.outs) IN
  /\ e.eok /\ e.ok /\ e.same
  /\ e.vals = Values(e.ns, e.outs) /\ e.exprs = Exprs(e.ns, e.outs)
  /\ st.ok /\ st.vals = e.vals /\ st.exprs = e.exprs
  /\ LET held == SelectSeq(st.res, LAMBDA r : r.k # "") IN
     /\ {held[i].v : i \in 1..Len(held)} = want
     /\ Len(held) = Cardinality(want)
  /\ \A i, j \in 1..Len(st.known) : i # j => st.known[i] # st.known[j]
Ok(e) == IF e.op = "decode" THEN DecodeOk(e) ELSE EncodeOk(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
