------------------------------ MODULE MC_Serial ------------------------------
(* The decoder over all short sequences of steps, next to one without hints and *)
(* one with a step missing from the end.                                        *)
EXTENDS Serial, TLC
CONSTANTS N, Big
B == [k |-> "none", i |-> 0, h |-> <<>>, miss |-> FALSE, key |-> "", v |-> 0, vs |-> <<>>, es |-> <<>>, c |-> -1, p |-> [t |-> "", x |-> ""]]
Idx == 0..(IF Big THEN 2 ELSE 1)
Alphabet ==
  {[B EXCEPT !.k = "leaf", !.key = "x"], [B EXCEPT !.k = "codec", !.key = "A"], [B EXCEPT !.k = "codec", !.key = "O"],
   [B EXCEPT !.k = "val", !.p = [t |-> "i", x |-> "5"]], [B EXCEPT !.k = "val", !.p = [t |-> "t", x |-> "f1"], !.c = 0]}
  \cup {[B EXCEPT !.k = "lit", !.v = v] : v \in Idx}
  \cup {[B EXCEPT !.k = "op", !.v = v, !.es = <<e>>] : v, e \in Idx}
  \cup {[B EXCEPT !.k = "val", !.p = [t |-> "i", x |-> "6"], !.vs = <<v>>] : v \in Idx}
  \cup {[B EXCEPT !.k = "outv", !.v = v] : v \in Idx} \cup {[B EXCEPT !.k = "oute", !.v = v] : v \in Idx}
HintSets == {<<>>, <<1>>, <<0, 1>>, <<0, 2, 1>>}
VARIABLES st, plain, n
vars == <<st, plain, n>>
Init == st = Start(TRUE) /\ plain = Start(TRUE) /\ n = 0
Next == /\ n < N /\ st.ok
        /\ \E s \in Alphabet, i \in 0..n, h \in HintSets :
             /\ (h # <<>> => n = 0)
             /\ st' = Step(st, [s EXCEPT !.i = i, !.h = h])
             /\ plain' = Step(plain, [s EXCEPT !.i = i])
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
(* Hints save memory and reject; they change no output.                        *)
HintsHarmless == st.ok => plain.ok /\ st.vals = plain.vals /\ st.exprs = plain.exprs
(* What is kept is used less often than announced; what is kept is a term.     *)
Kept == st.ok => \A i \in 1..Len(st.res) :
   /\ (st.res[i].k = "") = (st.res[i].v = "")
   /\ TRUE = (i <= Len(st.exp) => st.res[i].u <= st.exp[i])
   /\ TRUE = (i <= Len(st.exp) /\ st.res[i].k # "" => st.res[i].u < st.exp[i])
   /\ TRUE = (st.res[i].k = "" \/ plain.res[i].v = st.res[i].v)
(* Outputs and results are never taken back.                                   *)
Grows == [][Prefix(st.vals, st'.vals) /\ Prefix(st.exprs, st'.exprs) /\ Len(st.res) <= Len(st'.res)
            /\ \A i \in 1..Len(plain.res) : plain.res[i].k # "" => plain'.res[i].v = plain.res[i].v
            /\ (~st.ok => st' = st)]_vars
(* A step whose index is taken, beyond the end, or refers forward fails.       *)
NoGaps == plain.ok => \A i \in 1..Len(plain.res) : plain.res[i].u = 0 \/ plain.res[i].k # ""
Inv == HintsHarmless /\ Kept /\ NoGaps
=============================================================================
