----------------------------- MODULE StringsPhys -----------------------------
(* Design of string buffers: offsets[i] = <<start, end>> into characters biased  *)
(* by base.  Model checked: through any slicing, copying and reshuffling the    *)
(* physical buffer denotes the logical sequence of strings, and all offsets lie *)
(* within the characters.                                                       *)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, MaxSteps
VARIABLES ph, lg, steps
svars == <<ph, lg, steps>>
Strings == {<<>>, <<1>>, <<2, 3>>}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Empty == [offs |-> <<>>, chars |-> <<>>, base |-> 0, owned |-> TRUE]
Str(p, i) == SubSeq(p.chars, p.offs[i][1] - p.base + 1, p.offs[i][2] - p.base)
Abs(p) == [i \in 1..Len(p.offs) |-> Str(p, i)]
RECURSIVE Pack(_, _)
Pack(vs, at) == IF vs = <<>> THEN [offs |-> <<>>, chars |-> <<>>]
                ELSE LET r == Pack(Tail(vs), at + Len(Head(vs)))
                     IN [offs |-> <<<<at, at + Len(Head(vs))>>>> \o r.offs, chars |-> Head(vs) \o r.chars]
Init == ph = Empty /\ lg = <<>> /\ steps = 0
Make(vs) == LET r == Pack(vs, 0)
            IN ph' = [offs |-> r.offs, chars |-> r.chars, base |-> 0, owned |-> TRUE] /\ lg' = vs
Slice(o, n) == /\ lg' = SubSeq(lg, o + 1, o + n)
               /\ ph' = IF n = 0 THEN Empty ELSE [ph EXCEPT !.offs = SubSeq(@, o + 1, o + n)]
Shallow == lg' = lg /\ ph' = [ph EXCEPT !.owned = FALSE]
Deep ==
  /\ lg' = lg
  /\ ph' = IF lg = <<>> THEN Empty
           ELSE LET lo == Min({ph.offs[i][1] : i \in 1..Len(ph.offs)})
                    hi == Max({ph.offs[i][2] : i \in 1..Len(ph.offs)})
                IN [offs |-> ph.offs, base |-> lo, owned |-> TRUE,
                    chars |-> SubSeq(ph.chars, lo - ph.base + 1, hi - ph.base)]
\* n elements; element k is old element f[k], or the default where f[k] = 0.
Reshuffle(n, f, def) ==
  LET at == ph.base + Len(ph.chars)
      d == IF def = <<>> THEN <<ph.base, ph.base>> ELSE <<at, at + Len(def)>>
  IN /\ lg' = [k \in 1..n |-> IF f[k] = 0 THEN def ELSE lg[f[k]]]
     /\ ph' = [ph EXCEPT !.offs = [k \in 1..n |-> IF f[k] = 0 THEN d ELSE ph.offs[f[k]]],
                         !.chars = @ \o def, !.owned = @ \/ def # <<>>]
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E n \in 1..MaxLen : \E vs \in [1..n -> Strings] : steps = 0 /\ Make(vs)
           \/ \E o \in 0..Len(lg) : \E n \in 0..(Len(lg) - o) : Slice(o, n)
           \/ Shallow
           \/ Deep
           \/ \E n \in 1..MaxLen : \E f \in [1..n -> 0..Len(lg)], def \in {<<>>, <<7>>} : Reshuffle(n, f, def)
Spec == Init /\ [][Next]_svars
Within == \A i \in 1..Len(ph.offs) : /\ ph.base <= ph.offs[i][1] /\ ph.offs[i][1] <= ph.offs[i][2]
                                     /\ ph.offs[i][2] <= ph.base + Len(ph.chars)
Denotes == Abs(ph) = lg
=============================================================================
