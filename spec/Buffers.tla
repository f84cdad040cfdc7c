------------------------------- MODULE Buffers -------------------------------
(* Immutable buffers over owned or foreign memory.                              *)
(* buf[i] = [el, dep]: the elements [any, v] (any: not specified) and the       *)
(* foreign memory blocks the buffer may look into.  Whatever a buffer is built  *)
(* from, it reads back its elements; only scribbling over foreign memory it     *)
(* looks into can disturb it, and a buffer that claims to own its data looks    *)
(* into none.                                                                   *)
EXTENDS Integers, Sequences
VARIABLES buf, kind
bvars == <<buf, kind>>

Lit(v) == [any |-> FALSE, v |-> v]
Any == [any |-> TRUE, v |-> 0]
Lits(vs) == [i \in 1..Len(vs) |-> Lit(vs[i])]
Anys(n) == [i \in 1..n |-> Any]
Unset == IF kind = "text" THEN Lit(<<>>) ELSE Any
Mk(el, dep) == [el |-> el, dep |-> IF el = <<>> THEN {} ELSE dep]
Nothing == Mk(<<>>, {})

\* --- builders: st = [c: elements, p: position of the inserter]
Put(c, at, e) == IF at < Len(c) THEN [c EXCEPT ![at + 1] = e] ELSE c
Step(st, s) ==
  CASE s.k \in {"set", "span"} -> [st EXCEPT !.c = Put(@, s.at, Lit(s.v))]
    [] s.k = "copy" -> [st EXCEPT !.c = Put(@, s.to, @[s.from + 1])]
    [] s.k = "setn" -> [st EXCEPT !.c = [i \in 1..Len(@) |-> IF i > s.at /\ i <= s.at + Len(s.vs) THEN Lit(s.vs[i - s.at]) ELSE @[i]]]
    [] s.k = "setc" -> [st EXCEPT !.c = [i \in 1..Len(@) |-> IF i > s.at /\ i <= s.at + s.n THEN Lit(s.v) ELSE @[i]]]
    [] s.k = "ins" -> [st EXCEPT !.p = s.at]
    [] s.k = "add" -> [c |-> Put(st.c, st.p, Lit(s.v)), p |-> st.p + 1]
    [] s.k = "skip" -> [st EXCEPT !.p = @ + s.n]
RECURSIVE Fold(_, _, _)
Fold(st, ss, i) == IF i > Len(ss) THEN st ELSE Fold(Step(st, ss[i]), ss, i + 1)
Built(max, ss, how, n) ==
  LET st == Fold([c |-> [i \in 1..max |-> Unset], p |-> 0], ss, 1)
  IN SubSeq(st.c, 1, IF how = "full" THEN max ELSE IF how = "ins" THEN st.p ELSE n)

\* --- reordering the elements of src
RECURSIVE Place(_, _, _, _)
Place(c, src, ss, i) ==
  IF i > Len(ss) THEN c
  ELSE LET s == ss[i]
           d == [k \in 1..Len(c) |->
                   IF (s.k = "one" /\ k = s.to + 1) \/ (s.k = "range" /\ k > s.lo /\ k <= s.hi) THEN src[s.from + 1] ELSE c[k]]
       IN Place(d, src, ss, i + 1)
Reshuffled(src, max, def, ss, how, n) ==
  LET c == Place([k \in 1..max |-> IF def = <<>> THEN Any ELSE Lit(def[1])], src, ss, 1)
  IN SubSeq(c, 1, IF how = "full" THEN max ELSE n)

BInit == buf = [i \in 1..4 |-> Nothing] /\ kind = "i32"
Begin(k) == kind' = k /\ buf' = [i \in 1..4 |-> Nothing]
\* The buffers that buffer i is replaced by, the other buffers being as in c.
Put4(c, i, x) == buf' = [c EXCEPT ![i] = x] /\ UNCHANGED kind
Create(c, i, vs) == Put4(c, i, Mk(Lits(vs), {}))
Uninit(c, i, n) == Put4(c, i, Mk([k \in 1..n |-> Unset], {}))
Build(c, i, max, ss, how, n) == Put4(c, i, Mk(Built(max, ss, how, n), {}))
Reshuffle(c, i, j, max, def, ss, how, n) == Put4(c, i, Mk(Reshuffled(c[j].el, max, def, ss, how, n), c[j].dep))
Slice(c, i, j, off, n) == Put4(c, i, Mk(SubSeq(c[j].el, off + 1, off + n), c[j].dep))
Copy(c, i, j) == Put4(c, i, c[j])
Deep(c, i, j) == Put4(c, i, Mk(c[j].el, {}))
Wrap(c, i, x, vs) == Put4(c, i, Mk(Lits(vs), {x}))
\* Memory block x is overwritten, or released and reused.
Scribble(c, x) ==
  /\ UNCHANGED kind
  /\ buf' = [i \in 1..4 |-> IF x \in c[i].dep THEN [c[i] EXCEPT !.el = Anys(Len(@))] ELSE c[i]]
\* Every buffer is made independent of any memory block.
Own(c) == UNCHANGED kind /\ buf' = [i \in 1..4 |-> [c[i] EXCEPT !.dep = {}]]

\* What is read back from buffer x.
Reads(x, vals) == Len(vals) = Len(x.el) /\ \A k \in 1..Len(vals) : x.el[k].any \/ x.el[k].v = vals[k]
\* The claim of ownership is taken at its word.
Claim(x, owner) == IF owner THEN [x EXCEPT !.dep = {}] ELSE x
=============================================================================
